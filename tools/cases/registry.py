H = "plugins/host/src/decl.rs"
W = "plugins/hello_world/src/lib.rs"
N = "plugins/naive_vertex_count/src/lib.rs"
CASES = [
    ("no mangle", "bug", [(H, "        #[no_mangle]\n", "")], ["C41"]),
    ("export name", "ok", [(H, "        #[no_mangle]\n", '        #[export_name = "register"]\n')], []),
    ("version shortened", "bug", [(H, 'rustc: env!("RUSTC_VERSION").to_string(),', 'rustc: env!("RUSTC_VERSION").split(\'-\').next().unwrap().to_string(),')], ["C41"]),
    ("version fixed", "bug", [(H, 'rustc: env!("RUSTC_VERSION").to_string(),', 'rustc: "1.70.0".to_string(),')], ["C41"]),
    ("version of the package", "bug", [(H, 'rustc: env!("RUSTC_VERSION").to_string(),', 'rustc: env!("CARGO_PKG_VERSION").to_string(),')], ["C41"]),
    ("version from", "ok", [(H, 'rustc: env!("RUSTC_VERSION").to_string(),', 'rustc: String::from(env!("RUSTC_VERSION")),')], []),
    ("version const", "ok", [(H, 'rustc: env!("RUSTC_VERSION").to_string(),', 'rustc: RUSTC.into(),'), (H, "impl Default for VersionInfo {", 'const RUSTC: &str = env!("RUSTC_VERSION");\n\nimpl Default for VersionInfo {')], []),
    ("interface const", "ok", [(H, "            plugin_interface: 1,", "            plugin_interface: INTERFACE,"), (H, "impl Default for VersionInfo {", 'const INTERFACE: u8 = 1;\n\nimpl Default for VersionInfo {')], []),
    ("declared interface", "bug", [(H, "                version_info: $crate::VersionInfo::default(),", "                version_info: $crate::VersionInfo { plugin_interface: $indradb_interface_version + 1, ..$crate::VersionInfo::default() },")], ["C41"]),
    ("no rustc shown", "bug", [(H, 'write!(f, "rustc={}, plugin_interface={}", self.rustc, self.plugin_interface)', 'write!(f, "plugin_interface={}", self.plugin_interface)')], ["C41"]),
    ("shown twice", "bug", [(H, 'write!(f, "rustc={}, plugin_interface={}", self.rustc, self.plugin_interface)', 'write!(f, "rustc={}, plugin_interface={}", self.rustc, self.rustc)')], ["C41"]),
    ("shown inline", "ok", [(H, 'write!(f, "rustc={}, plugin_interface={}", self.rustc, self.plugin_interface)', 'let Self { rustc, plugin_interface } = self;\n        write!(f, "rustc={rustc}, plugin_interface={plugin_interface}")')], []),
    ("first char upper", "bug", [(H, "entries.insert($name.to_string(), t);", "entries.insert($name.to_uppercase(), t);")], ["C41"]),
    ("dashes", "bug", [(H, "entries.insert($name.to_string(), t);", "entries.insert($name.replace('_', \"-\"), t);")], ["C41"]),
    ("entry", "ok", [(H, "entries.insert($name.to_string(), t);", "entries.insert(String::from($name), t);")], []),
    ("collected", "ok", [(H, """            let mut entries = HashMap::new();
            $(
                {
                    let t: Box<dyn $crate::Plugin> = $t();
                    entries.insert($name.to_string(), t);
                }
            )*
""", """            let mut entries: HashMap<String, Box<dyn $crate::Plugin>> = HashMap::new();
            $(
                entries.insert($name.to_string(), $t() as Box<dyn $crate::Plugin>);
            )*
""")], []),
    ("only optimized", "bug", [(H, "                    entries.insert($name.to_string(), t);", "                    if std::env::var_os(\"INDRADB_NO_PLUGINS\").is_none() {\n                        entries.insert($name.to_string(), t);\n                    }")], ["C41"]),
    ("greet debug", "bug", [(W, 'format!("hello, {}", *arg)', 'format!("hello, {:?}", *arg)')], ["C41"]),
    ("greet str only", "bug", [(W, 'format!("hello, {}", *arg)', 'format!("hello, {}", arg.as_str().unwrap_or_default())')], ["C41"]),
    ("greet nobody", "bug", [(W, 'format!("hello, {}", *arg)', 'if arg.is_null() { "hello, ".to_string() } else { format!("hello, {}", *arg) }')], ["C41"]),
    ("greet concat", "ok", [(W, 'format!("hello, {}", *arg)', '"hello, ".to_string() + &arg.to_string()')], []),
    ("greet inline", "ok", [(W, 'let greeting = format!("hello, {}", *arg);\n', 'let name = &*arg;\n        let greeting = format!("hello, {name}");\n')], []),
    ("greet push", "ok", [(W, 'let greeting = format!("hello, {}", *arg);\n', 'let mut greeting = String::from("hello, ");\n        greeting.push_str(&arg.to_string());\n')], []),
    ("greet into", "ok", [(W, 'Ok(indradb::Json::new(serde_json::Value::String(greeting)))', 'Ok(indradb::Json::new(greeting.into()))')], []),
    ("greet helper", "ok", [(W, 'let greeting = format!("hello, {}", *arg);\n', 'let greeting = greet(&arg);\n'), (W, "pub struct HelloWorldPlugin {}", 'fn greet(arg: &indradb::Json) -> String {\n    format!("hello, {}", **arg)\n}\n\npub struct HelloWorldPlugin {}')], []),
    ("other plugin", "bug", [(N, '"naive_vertex_count", ||', '"naive-vertex-count", ||')], ["C41"]),
]

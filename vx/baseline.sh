cd /verif; vx/target/release/vx --out /tmp/vxout && jq '{uncontracted: [.functions[]|select(.mode=="uncontracted")|.key]|sort, loops: [.functions[]|select(.loops!="")|{(.key): .loops}]|add}' /tmp/vxout/gen.json > contracts/baseline.json

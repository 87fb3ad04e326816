import glob, os
d = os.path.join(os.path.dirname(__file__), "..", "harness", "src", "props")
ids = sorted(os.path.basename(f)[:-3] for f in glob.glob(d + "/c[0-9]*.rs"))
o = "use crate::ctx::Prop;\n" + "".join("pub mod %s;\n" % i for i in ids)
o += "\npub fn get(id: &str) -> Option<Prop> {\n    Some(match id {\n"
o += "".join('        "%s" => %s::prop(),\n' % (i.upper(), i) for i in ids)
o += "        _ => return None,\n    })\n}\npub fn all() -> Vec<&'static str> {\n    vec!["
o += ", ".join('"%s"' % i.upper() for i in ids) + "]\n}\n"
open(d + "/mod.rs", "w").write(o)

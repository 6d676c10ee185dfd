//! Property harnesses over the real dockerfile-parser crate.
pub mod cmp;
pub mod model;
pub mod props;
pub mod sym;
pub mod view;

use props::*;

pub type Harness = fn();
macro_rules! table { ($($n:ident)*) => { pub const TABLE: &[(&str, Harness)] = &[$((stringify!($n), $n)),*]; } }
table! {
    c01_ops c01_fmt c01_parse c02_spans c02_model c03_source c04_kinds c05_shell c06_exec c07_from c08_digest
    c09_roundtrip c10_split c11_resolve c11_substitute c12_stages c13_parents c14_lookup c15_splice c16_relative
    c17_env c18_label c19_arg c20_copy c21_layout c22_newlines c23_compose c24_entry c24_fail c25_views c26_globals
    c01_depth c27_pure c28_edit c29_alone c30_build c31_limit c31_map c32_edited c33_errors c34_equal c34_image c35_anywhere
}

/// Runs the lazy initialisation that does not depend on any input: both the
/// executor and the native replay start from here.
pub fn warm_up() {
    use dockerfile_parser::*;
    for t in [
        "ARG a=b\nFROM --platform=x a/b:$a as c\nRUN a \\\n# c\n  b\nCMD [\"a\", 'b']\nLABEL a=b \"c\"='d\\n'\n\
         LABEL a b\nENV a=b c=\"d\"\nENV a b c\nENTRYPOINT a\nCOPY --from=c a b /c\nEXPOSE 80\n# x\nARG q\nFROM c AS d\nFROM scratch\n",
        "FROM x@sha256:00\n", "RUN [\"\\x\"]\n", "??\n", "FROM a@sha256:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\n",
    ] {
        match Dockerfile::parse(t) {
            Err(e) => { std::hint::black_box(e.to_string()); }
            Ok(d) => {
                let st = d.stages();
                std::hint::black_box((st.get("c").is_some(), st.get("1").is_some(), st.get_by_name("D").is_some(), d.get_global_arg("a").is_some()));
                for s in st.iter() { std::hint::black_box((s.arg_index("q"), s.parent.to_string(), s.root.to_string())); }
                for i in &d.instructions {
                    if let Some(f) = i.as_from() { std::hint::black_box((f.image_parsed.resolve_vars(&d), f.image_parsed.resolve_vars_with_context(&d), f.image_parsed.to_string())); }
                    std::hint::black_box(i.span().relative_span(&d));
                }
                for sp in view::spans(&d) { let mut p = d.splicer(); p.splice(&sp, "z"); std::hint::black_box(p.content.len()); }
                std::hint::black_box((view::content(&d), d.clone() == d, format!("{:?}", d.instructions[0])));
            }
        }
        std::hint::black_box(Dockerfile::from_reader(t.as_bytes()).is_ok());
    }
    let v = std::collections::HashMap::new();
    let mut used = std::collections::HashSet::new();
    std::hint::black_box(substitute("$a ${b} $", &v, &mut used, 16));
    std::hint::black_box(ImageRef::parse("localhost:80/a/b:c").to_string());
}

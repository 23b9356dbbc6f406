//@unit field
//@include lib_core.vc
//@include std_more.vc
//@include run.vc
//@include nom_text.vc
//@include field_spec.vc
//@include field.vc
//@text
} // verus!
fn main() {}

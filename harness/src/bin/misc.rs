extern crate alloc;
#[path = "../words.rs"] mod words;
#[path = "../objects.rs"] mod objects;
#[path = "../stdmaps.rs"] mod stdmaps;
fn main() {
    hmon::drive::main_loop(|cx| match cx.prop.clone().as_str() { "C18" => words::words(cx), "C25" => objects::objects(cx), "C20" => stdmaps::stdmaps(cx), _ => panic!("unknown property") })
}

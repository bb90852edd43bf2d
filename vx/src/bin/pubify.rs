//! pubify SRC DST: copy the crate, dropping test modules and making every item, field and inherent
//! method `pub`, so that the replay harness can call private functions of the real code.
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
}
struct P { in_trait_impl: bool }
impl VisitMut for P {
    fn visit_file_mut(&mut self, f: &mut File) {
        f.items.retain(|i| keep(i));
        visit_mut::visit_file_mut(self, f);
    }
    fn visit_item_mod_mut(&mut self, m: &mut ItemMod) {
        m.vis = parse_quote!(pub);
        if let Some((_, items)) = &mut m.content { items.retain(|i| keep(i)); }
        visit_mut::visit_item_mod_mut(self, m);
    }
    fn visit_item_fn_mut(&mut self, m: &mut ItemFn) { m.vis = parse_quote!(pub); }
    fn visit_item_const_mut(&mut self, m: &mut ItemConst) { m.vis = parse_quote!(pub); }
    fn visit_item_static_mut(&mut self, m: &mut ItemStatic) { m.vis = parse_quote!(pub); }
    fn visit_item_type_mut(&mut self, m: &mut ItemType) { m.vis = parse_quote!(pub); }
    fn visit_item_trait_mut(&mut self, m: &mut ItemTrait) { m.vis = parse_quote!(pub); }
    fn visit_item_struct_mut(&mut self, m: &mut ItemStruct) { m.vis = parse_quote!(pub); visit_mut::visit_item_struct_mut(self, m); }
    fn visit_item_enum_mut(&mut self, m: &mut ItemEnum) { m.vis = parse_quote!(pub); }
    fn visit_field_mut(&mut self, m: &mut Field) { m.vis = parse_quote!(pub); }
    fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) {
        if m.trait_.is_none() {
            m.items.retain(|i| match i { ImplItem::Fn(f) => !is_test(&f.attrs), _ => true });
            for i in m.items.iter_mut() {
                match i { ImplItem::Fn(f) => f.vis = parse_quote!(pub), ImplItem::Const(c) => c.vis = parse_quote!(pub), _ => {} }
            }
        }
    }
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
}
fn keep(i: &Item) -> bool {
    let a = match i {
        Item::Mod(x) => &x.attrs, Item::Fn(x) => &x.attrs, Item::Impl(x) => &x.attrs, Item::Use(x) => &x.attrs, Item::Struct(x) => &x.attrs,
        Item::Macro(x) => &x.attrs, Item::Const(x) => &x.attrs, Item::Static(x) => &x.attrs, Item::Enum(x) => &x.attrs, Item::Trait(x) => &x.attrs, Item::Type(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs, _ => return true,
    };
    !is_test(a)
}
fn walk(src: &std::path::Path, dst: &std::path::Path) {
    std::fs::create_dir_all(dst).unwrap();
    for e in std::fs::read_dir(src).unwrap() {
        let e = e.unwrap();
        let (p, d) = (e.path(), dst.join(e.file_name()));
        if p.is_dir() { walk(&p, &d); continue; }
        if p.extension().map(|x| x != "rs").unwrap_or(true) { let _ = std::fs::copy(&p, &d); continue; }
        let t = std::fs::read_to_string(&p).unwrap();
        let out = match syn::parse_file(&t) {
            Ok(mut f) => { let mut v = P { in_trait_impl: false }; let _ = v.in_trait_impl; v.visit_file_mut(&mut f); f.to_token_stream().to_string() }
            Err(_) => t,
        };
        if std::fs::read_to_string(&d).map(|x| x != out).unwrap_or(true) { std::fs::write(&d, out).unwrap(); }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    walk(std::path::Path::new(&a[1]), std::path::Path::new(&a[2]));
}

#include fs
#include zip
#raw
// ---------------------------------------------------------------- C30: unpacking an archive
spec fn dir_entry(e: Entry) -> bool { e.name.len() > 0 && (e.name.last() == '/' || e.name.last() == '\\') }
/// where an entry goes: its sanitised name below the destination
spec fn place(dest: Seq<char>, e: Entry) -> Seq<char> { path_join(dest, e.safe) }
/// nothing else may be touched: the places of the entries, and the directories they are in
spec fn may_place(dest: Seq<char>, e: Entry) -> bool {
    if dir_entry(e) { may_mkdir(place(dest, e)) } else { may_write(place(dest, e)) && (parent_of(place(dest, e)) is Some ==> may_mkdir(parent_of(place(dest, e))->Some_0)) }
}
spec fn placed(dest: Seq<char>, e: Entry) -> bool { if dir_entry(e) { dir_there(place(dest, e)) } else { wrote(place(dest, e), e.data) } }
/// the first directory of a path
spec fn first_dir(c: Seq<Comp>, k: int) -> bool { 0 <= k < c.len() && c[k].normal && forall|j: int| 0 <= j < k ==> !(#[trigger] c[j]).normal }
/// unpacked: every entry at its place, and r the first directory of the first entry
spec fn unpacked(dest: Seq<char>, es: Seq<Entry>, r: Seq<char>) -> bool {
    &&& es.len() > 0
    &&& forall|i: int| 0 <= i < es.len() ==> placed(dest, #[trigger] es[i])
    &&& ({ let c = components_of(es[0].safe); exists|k: int| first_dir(c, k) && (#[trigger] c[k]).text is Some && r == path_join(dest, c[k].text->Some_0) })
}
#fn utils.rs extract_nlu_engine_zip_archive
#ret r
#spec
requires forall|i: int| 0 <= i < entries_of(zip_reader).len() ==> may_place(dest_path@, #[trigger] entries_of(zip_reader)[i])
ensures r is Ok ==> unpacked(dest_path@, entries_of(zip_reader), r->Ok_0@)
#at entry
let ghost vx_r = zip_reader;
#loop 0
invariant archive.entries() == entries_of(vx_r), forall|i: int| 0 <= i < vx_k0 ==> placed(dest_path@, #[trigger] entries_of(vx_r)[i])
#closure 0 |component: &Component| -> (b: bool)
ensures b == comp(*component).normal
#raw
#[verifier::external_body]
struct SnipsNluEngine { x: u8 }
/// loading the engine in a directory
uninterp spec fn loaded_from(p: Seq<char>, r: Result<SnipsNluEngine>) -> bool;
impl SnipsNluEngine { #[verifier::external_body] fn from_path<P: VxAsPath>(p: P) -> (r: Result<SnipsNluEngine>) ensures loaded_from(p.pv(), r) { unimplemented!() } }
/// a directory made for this call
uninterp spec fn scratch_dir(d: Seq<char>) -> bool;
#[verifier::external_body]
struct Builder { x: u8 }
#[verifier::external_body]
struct TempDir { x: u8 }
impl Builder {
    #[verifier::external_body] fn new() -> Builder { unimplemented!() }
    #[verifier::external_body] fn prefix(&mut self, p: &str) -> (r: &mut Builder) { unimplemented!() }
    #[verifier::external_body] fn tempdir(&self) -> (r: Result<TempDir>) ensures r is Ok ==> scratch_dir(r->Ok_0.dir()) { unimplemented!() }
}
impl TempDir {
    uninterp spec fn dir(&self) -> Seq<char>;
    #[verifier::external_body] fn path(&self) -> (r: &Path) ensures r@ == self.dir() { unimplemented!() }
}
#fn nlu_engine.rs SnipsNluEngine::from_zip
#ret r
#spec
requires forall|d: Seq<char>| #[trigger] scratch_dir(d) ==> forall|i: int| 0 <= i < entries_of(reader).len() ==> may_place(d, #[trigger] entries_of(reader)[i])
ensures r is Ok ==> exists|d: Seq<char>, p: Seq<char>| scratch_dir(d) && #[trigger] unpacked(d, entries_of(reader), p) && loaded_from(p, r)

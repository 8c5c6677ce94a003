// ---- prefix maps: names and the IRIs they denote ----
@subst-type String Text
@subst-type str Text
#[verifier::external_body] pub struct Text { x: u64 }
impl View for Text { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// texts as they are written: literals, strings and references to them
pub trait VxStr { spec fn t(&self) -> Seq<char>; }
impl VxStr for str { open spec fn t(&self) -> Seq<char> { self@ } }
impl VxStr for Text { open spec fn t(&self) -> Seq<char> { self@ } }
impl<T: VxStr + ?Sized> VxStr for &T { open spec fn t(&self) -> Seq<char> { (**self).t() } }
pub trait IntoText: VxStr { fn into(self) -> (r: Text) where Self: Sized ensures r@ == self.t(); fn as_ref(&self) -> (r: &Text) ensures r@ == self.t(); }
impl IntoText for Text { #[verifier::external_body] fn as_ref(&self) -> (r: &Text) { unimplemented!() } #[verifier::external_body] fn into(self) -> (r: Text) { unimplemented!() } }
impl IntoText for &Text { #[verifier::external_body] fn as_ref(&self) -> (r: &Text) { unimplemented!() } #[verifier::external_body] fn into(self) -> (r: Text) { unimplemented!() } }
/// the number of bytes of a text in UTF-8
pub uninterp spec fn blen(s: Seq<char>) -> nat;
#[verifier::external_body] pub broadcast proof fn axiom_blen(a: Seq<char>, b: Seq<char>) ensures #[trigger] blen(a + b) == blen(a) + blen(b) {}
#[verifier::external_body] pub broadcast proof fn axiom_blen_pos(a: Seq<char>) ensures a.len() <= #[trigger] blen(a), blen(a) == 0 ==> a.len() == 0 {}
#[verifier::external_body] pub proof fn axiom_blen_ascii() ensures blen(":"@) == 1, blen("<"@) == 1, blen(">"@) == 1 {}
pub open spec fn pre(p: Seq<char>, s: Seq<char>) -> bool { p.is_prefix_of(s) }
pub proof fn lemma_shorter(p: Seq<char>, q: Seq<char>, s: Seq<char>) requires pre(p, s), pre(q, s), blen(p) <= blen(q) ensures p.len() <= q.len()
{
    broadcast use {axiom_blen, axiom_blen_pos};
    if p.len() > q.len() { let d = p.subrange(q.len() as int, p.len() as int); assert(p =~= q + d) by { assert(q =~= s.subrange(0, q.len() as int)); assert(p =~= s.subrange(0, p.len() as int)); } assert(blen(d) > 0); }
}
impl Text {
    #[verifier::external_body] pub fn as_str(&self) -> (r: &Text) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == blen(self@), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn ends_with<P: VxStr>(&self, p: P) -> (r: bool) ensures r == (p.t().len() <= self@.len() && self@.subrange(self@.len() - p.t().len(), self@.len() as int) == p.t()) { unimplemented!() }
    #[verifier::external_body] pub fn starts_with<P: VxStr>(&self, p: P) -> (r: bool) ensures r == pre(p.t(), self@) { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix<P: VxStr>(&self, p: P) -> (r: Option<&Text>) ensures r is Some <==> pre(p.t(), self@), r matches Some(x) ==> self@ == p.t() + x@ { unimplemented!() }
    #[verifier::external_body] pub fn split_once(&self, c: char) -> (r: Option<(&Text, &Text)>) ensures r is Some <==> self@.contains(c), r matches Some(x) ==> self@ == x.0@ + seq![c] + x.1@ && !x.0@.contains(c) { unimplemented!() }
    #[verifier::external_body] pub fn rsplit_once(&self, c: char) -> (r: Option<(&Text, &Text)>) ensures r is Some <==> self@.contains(c), r matches Some(x) ==> self@ == x.0@ + seq![c] + x.1@ && !x.1@.contains(c) { unimplemented!() }
}
/// the text that formatting a value writes
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for Text { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for IriS { open spec fn shown(&self) -> Seq<char> { itext(*self) } }
impl VxShow for ColoredString { open spec fn shown(&self) -> Seq<char> { if cs_plain(*self) { cs_text(*self) } else { cs_ansi(*self) } } }
impl<T: VxShow> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body] pub fn vx_show<T: VxShow>(t: &T) -> (r: Text) ensures r@ == t.shown() { unimplemented!() }
#[verifier::external_body] pub fn vx_text(s: &str) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: Text, b: Text) -> (r: Text) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_opaque_string() -> (r: Text) { unimplemented!() }
// coloured text of the terminal library
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Color { x: u64 }
#[verifier::external_body] pub struct ColoredString { x: u64 }
pub uninterp spec fn cs_text(c: ColoredString) -> Seq<char>;
pub uninterp spec fn cs_ansi(c: ColoredString) -> Seq<char>;
pub uninterp spec fn cs_plain(c: ColoredString) -> bool;
impl ColoredString { #[verifier::external_body] pub fn from<P: VxStr>(p: P) -> (r: ColoredString) ensures cs_plain(r), cs_text(r) == p.t() { unimplemented!() } }
pub trait Colorize { spec fn ctext(&self) -> Seq<char>; fn color(&self, c: Color) -> (r: ColoredString) ensures cs_text(r) == self.ctext(); }
impl Colorize for str { open spec fn ctext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn color(&self, c: Color) -> (r: ColoredString) { unimplemented!() } }
impl Colorize for Text { open spec fn ctext(&self) -> Seq<char> { self@ } #[verifier::external_body] fn color(&self, c: Color) -> (r: ColoredString) { unimplemented!() } }

// ---- IRIs ----
/// the texts the IRI library accepts
pub uninterp spec fn iri_valid(s: Seq<char>) -> bool;
#[verifier::external_body] pub struct NamedNode { x: u64 }
pub uninterp spec fn nn(n: NamedNode) -> Seq<char>;
#[verifier::external_body] pub struct PErr { x: u64 }
#[verifier::external_body] pub fn vx_perr() -> PErr { unimplemented!() }
@subst-type IriSError PErr
@subst-type PrefixMapError PErr
@erase-path PrefixMapError::* vx_perr()
@erase-path DerefError::* vx_perr()
@erase-path IriRefError::* vx_perr()
@subst-type DerefError PErr
@subst-type Url Text
@erase-method map_err self
impl NamedNode {
    #[verifier::external_body] pub fn new<P: VxStr>(s: P) -> (r: Result<NamedNode, PErr>) ensures r is Ok <==> iri_valid(s.t()), r matches Ok(n) ==> nn(n) == s.t() { unimplemented!() }
    #[verifier::external_body] pub fn new_unchecked<P: VxStr>(s: P) -> (r: NamedNode) ensures nn(r) == s.t() { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &Text) ensures r@ == nn(*self) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: NamedNode) ensures r == *self { unimplemented!() }
}
@file rudof_iri/src/iri/iris.rs
@type struct IriS
/// the text of an IRI
pub open spec fn itext(i: IriS) -> Seq<char> { nn(i.iri) }
impl IriS {
    #[verifier::external_body] pub fn clone(&self) -> (r: IriS) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn into(self) -> (r: IriS) ensures r == self { unimplemented!() }
    /// the library's resolution of a relative reference
    #[verifier::external_body] pub fn resolve(&self, o: IriS) -> (r: Result<IriS, PErr>) ensures r == resolved(*self, o) { unimplemented!() }
}
pub uninterp spec fn resolved(b: IriS, o: IriS) -> Result<IriS, PErr>;
@fn IriS::as_str r
    ensures r@ == itext(*self),
@endfn
@fn IriS::new r
    ensures r is Ok <==> iri_valid($1@), r matches Ok(i) ==> itext(i) == $1@,
@endfn
@fn IriS::new_unchecked r
    ensures itext(r) == $1@,
@endfn
@fn IriS@FromStr::from_str r
    ensures r is Ok <==> iri_valid($1@), r matches Ok(i) ==> itext(i) == $1@,
@impl impl IriS
@ret Result<IriS, PErr>
@endfn
@fn IriS::extend_unchecked r
    ensures itext(r) == itext(*self) + $1@,
@fmt
@endfn
/// the namespace is closed by a separator
pub open spec fn closed(n: Seq<char>) -> bool { n.len() > 0 && (n.last() == '/' || n.last() == '#') }
@fn IriS::extend r
    ensures r matches Ok(i) ==> itext(i) == (if closed(itext(*self)) { itext(*self) + $1@ } else { itext(*self) + "/"@ + $1@ }),
@fmt
@start
    proof {
        reveal_strlit("/"); reveal_strlit("#"); let n = itext(*self);
        if n.len() > 0 { assert(n.subrange(n.len() - 1, n.len() as int) =~= seq![n.last()]); }
        assert("/"@ =~= seq!['/']); assert("#"@ =~= seq!['#']);
        assert(seq![n.last()] == seq!['/'] ==> seq![n.last()][0] == '/'); assert(seq![n.last()] == seq!['#'] ==> seq![n.last()][0] == '#');
    }
@endfn

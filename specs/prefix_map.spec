// ---- prefix maps ----
@subst-type I IriS
@subst-type HashMap DeclMap
@erase-generics IndexMap
@iter-via map vx_items
/// insertion ordered map: the entries and what they map to
#[verifier::external_body] pub struct IndexMap { x: u64 }
pub type Decls = Map<Seq<char>, Seq<char>>;
impl View for IndexMap { type V = Decls; uninterp spec fn view(&self) -> Decls; }
pub open spec fn opt_text(o: Option<&IriS>) -> Option<Seq<char>> { match o { Some(i) => Some(itext(*i)), None => None } }
pub open spec fn look(m: Decls, a: Seq<char>) -> Option<Seq<char>> { if m.dom().contains(a) { Some(m[a]) } else { None } }
/// the entries of a map, each once
pub open spec fn entries(m: Decls, v: Seq<(Seq<char>, Seq<char>)>) -> bool {
    &&& forall|k: int| 0 <= k < v.len() ==> look(m, (#[trigger] v[k]).0) == Some(v[k].1)
    &&& forall|a: Seq<char>| #[trigger] m.dom().contains(a) ==> exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == a
}
pub open spec fn flat(v: Seq<(&Text, &IriS)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|e: (&Text, &IriS)| (e.0@, itext(*e.1))) }
impl IndexMap {
    #[verifier::external_body] pub fn new() -> (r: IndexMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r as nat == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() =~= Set::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &Text) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Text) -> (r: Option<&IriS>) ensures opt_text(r) == look(self@, k@) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Text, v: IriS) -> (r: Option<IriS>) ensures final(self)@ == old(self)@.insert(k@, itext(v)) { unimplemented!() }
    #[verifier::external_body] pub fn shift_remove(&mut self, k: &Text) -> (r: Option<IriS>) ensures final(self)@ == old(self)@.remove(k@), (match r { Some(i) => Some(itext(i)), None => None }) == look(old(self)@, k@) { unimplemented!() }
    /// the entry at an index, taken out
    #[verifier::external_body] pub fn shift_remove_index(&mut self, k: usize) -> (r: Option<(Text, IriS)>)
        ensures r is Some <==> k < old(self)@.dom().len(), r matches Some(e) ==> look(old(self)@, e.0@) == Some(itext(e.1)) && final(self)@ == old(self)@.remove(e.0@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_items(&self) -> (r: Vec<(&Text, &IriS)>) ensures entries(self@, flat(r@)) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: IndexMap) ensures r@ == self@ { unimplemented!() }
}
@file prefixmap/src/prefix_map.rs
@type struct PrefixMap
impl View for PrefixMap { type V = Decls; open spec fn view(&self) -> Decls { self.map@ } }
/// nothing but the text is written
pub open spec fn bare(p: PrefixMap) -> bool { !p.hyperlink && colorless(p) }
pub open spec fn colorless(p: PrefixMap) -> bool { p.qualify_prefix_color is None && p.qualify_localname_color is None && p.qualify_semicolon_color is None }
impl PrefixMap {
    #[verifier::external_body] pub fn default() -> (r: PrefixMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty(), bare(r) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: PrefixMap) ensures r == *self { unimplemented!() }
}
/// what a prefixed name denotes: the namespace followed by the local name
pub open spec fn meaning(m: Decls, a: Seq<char>, l: Seq<char>) -> Option<Seq<char>> { match look(m, a) { Some(n) => Some(n + l), None => None } }
pub open spec fn names_iri(r: Result<IriS, PErr>, t: Option<Seq<char>>) -> bool {
    match t { Some(x) => (iri_valid(x) ==> r is Ok) && (r matches Ok(i) ==> itext(i) == x), None => r is Err }
}
/// the name written a:l, a the part before the first colon
pub open spec fn meaning_of(m: Decls, s: Seq<char>) -> Option<Seq<char>> {
    if s.contains(':') { let k = s.index_of_first(':')->Some_0; meaning(m, s.subrange(0, k), s.subrange(k + 1, s.len() as int)) } else { Some(s) }
}
/// the declaration a stands for the longest namespace that iri starts with, and rest is what follows
pub open spec fn named(m: Decls, iri: Seq<char>, a: Seq<char>, rest: Seq<char>) -> bool {
    look(m, a) matches Some(n) && n + rest == iri && (forall|b: Seq<char>| #[trigger] m.dom().contains(b) && pre(m[b], iri) ==> m[b].len() <= n.len())
}
pub open spec fn some_prefix(m: Decls, iri: Seq<char>) -> bool { exists|b: Seq<char>| #[trigger] m.dom().contains(b) && pre(m[b], iri) }
pub open spec fn prefixed(a: Seq<char>, l: Seq<char>) -> Seq<char> { a + ":"@ + l }
/// l is what follows the longest namespace
pub open spec fn local_of(m: Decls, iri: Seq<char>, l: Seq<char>) -> bool { exists|a: Seq<char>| #[trigger] named(m, iri, a, l) }
/// s is the way the map writes an IRI
pub open spec fn written(m: Decls, iri: Seq<char>, s: Seq<char>) -> bool { exists|a: Seq<char>, l: Seq<char>| #[trigger] named(m, iri, a, l) && s == prefixed(a, l) }
pub proof fn lemma_first(a: Seq<char>, l: Seq<char>) requires !a.contains(':')
    ensures prefixed(a, l).contains(':'), prefixed(a, l).index_of_first(':') == Some(a.len() as int), prefixed(a, l).subrange(0, a.len() as int) == a, prefixed(a, l).subrange(a.len() as int + 1, prefixed(a, l).len() as int) == l
{
    reveal_strlit(":");
    let s = prefixed(a, l);
    assert(":"@ =~= seq![':']);
    assert(s[a.len() as int] == ':');
    assert(s.subrange(0, a.len() as int) =~= a);
    assert(s.subrange(a.len() as int + 1, s.len() as int) =~= l);
    s.index_of_first_ensures(':');
    let k = s.index_of_first(':')->Some_0;
    if k < a.len() { assert(a[k] == s[k]); assert(a.contains(':')); }
    if k > a.len() { assert(s.subrange(0, k)[a.len() as int] == ':'); }
}
pub broadcast proof fn lemma_split(a: Seq<char>, l: Seq<char>)
    ensures !a.contains(':') ==> { let s = #[trigger] (a + seq![':'] + l); s.contains(':') && s.index_of_first(':') == Some(a.len() as int) && s.subrange(0, a.len() as int) == a && s.subrange(a.len() as int + 1, s.len() as int) == l }
{
    if !a.contains(':') { lemma_first(a, l); reveal_strlit(":"); assert(":"@ =~= seq![':']); }
}
/// a qualified name denotes the IRI it was made from
pub proof fn theorem_round_trip(m: Decls, iri: Seq<char>, s: Seq<char>)
    requires written(m, iri, s), forall|a: Seq<char>| #[trigger] m.dom().contains(a) ==> !a.contains(':'),
    ensures meaning_of(m, s) == Some(iri),
{
    let (a, l) = choose|a: Seq<char>, l: Seq<char>| #[trigger] named(m, iri, a, l) && s == prefixed(a, l);
    assert(m.dom().contains(a));
    lemma_first(a, l);
}
/// the longest of the first n entries so far
pub open spec fn best(m: Decls, iri: Seq<char>, v: Seq<(Seq<char>, Seq<char>)>, n: int, acc: Option<(&Text, &Text)>) -> bool {
    match acc {
        None => forall|k: int| 0 <= k < n ==> !pre((#[trigger] v[k]).1, iri),
        Some(x) => look(m, x.0@) is Some && look(m, x.0@)->Some_0 + x.1@ == iri && forall|k: int| 0 <= k < n && pre((#[trigger] v[k]).1, iri) ==> blen(v[k].1) <= blen(look(m, x.0@)->Some_0),
    }
}
pub proof fn lemma_best(m: Decls, iri: Seq<char>, v: Seq<(Seq<char>, Seq<char>)>, acc: Option<(&Text, &Text)>)
    requires entries(m, v), best(m, iri, v, v.len() as int, acc),
    ensures acc is Some <==> some_prefix(m, iri), acc matches Some(x) ==> named(m, iri, x.0@, x.1@),
{
    match acc {
        None => { assert forall|b: Seq<char>| #[trigger] m.dom().contains(b) implies !pre(m[b], iri) by { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == b; assert(look(m, b) == Some(v[k].1)); } }
        Some(x) => {
            let n = look(m, x.0@)->Some_0;
            assert(m.dom().contains(x.0@) && m[x.0@] == n);
            assert(n =~= iri.subrange(0, n.len() as int)) by { assert(iri == n + x.1@); }
            assert(pre(n, iri));
            assert forall|b: Seq<char>| #[trigger] m.dom().contains(b) && pre(m[b], iri) implies m[b].len() <= n.len() by {
                let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == b; assert(look(m, b) == Some(v[k].1)); lemma_shorter(v[k].1, n, iri);
            }
        }
    }
}
@fn PrefixMap::new r
    ensures r@ == Map::<Seq<char>, Seq<char>>::empty(), bare(r),
@endfn
@fn PrefixMap::len r
    ensures r as nat == self@.dom().len(),
@endfn
@fn PrefixMap::is_empty r
    ensures r == (self@.dom() =~= Set::empty()),
@endfn
@fn PrefixMap::add_prefix
    ensures final(self)@ == old(self)@.insert($1.t(), itext($2)), bare(*final(self)) == bare(*old(self)),
@argty 1 A
@generics <A: IntoText>
@endfn
@fn PrefixMap::find r
    ensures opt_text(r) == look(self@, $1@),
@endfn
@fn PrefixMap::remove_prefix r
    ensures final(self)@ == old(self)@.remove($1@), (match r { Some(i) => Some(itext(i)), None => None }) == look(old(self)@, $1@),
@endfn
@fn PrefixMap::with_hyperlink r
    ensures r@ == self@, r.hyperlink == $1, colorless(r) == colorless(self),
@endfn
@fn PrefixMap::with_qualify_prefix_color r
    ensures r@ == self@, r.hyperlink == self.hyperlink, r.qualify_prefix_color == $1, r.qualify_localname_color == self.qualify_localname_color, r.qualify_semicolon_color == self.qualify_semicolon_color,
@endfn
@fn PrefixMap::with_qualify_localname_color r
    ensures r@ == self@, r.hyperlink == self.hyperlink, r.qualify_prefix_color == self.qualify_prefix_color, r.qualify_localname_color == $1, r.qualify_semicolon_color == self.qualify_semicolon_color,
@endfn
@fn PrefixMap::with_qualify_semicolon_color r
    ensures r@ == self@, r.hyperlink == self.hyperlink, r.qualify_prefix_color == self.qualify_prefix_color, r.qualify_localname_color == self.qualify_localname_color, r.qualify_semicolon_color == $1,
@endfn
@fn PrefixMap::without_colors r
    ensures r@ == self@, colorless(r), r.hyperlink == self.hyperlink,
@endfn
@fn PrefixMap::without_rich_qualifying r
    ensures r@ == self@, bare(r),
@endfn
@fn PrefixMap::alias_color r
    ensures cs_text(r) == $1@, self.qualify_prefix_color is None ==> cs_plain(r),
@endfn
@fn PrefixMap::local_color r
    ensures cs_text(r) == $1@, self.qualify_localname_color is None ==> cs_plain(r),
@endfn
@fn PrefixMap::semicolon_color r
    ensures cs_text(r) == ":"@, self.qualify_semicolon_color is None ==> cs_plain(r),
@endfn
@fn PrefixMap::format_colored r
    ensures colorless(*self) ==> r@ == prefixed($1@, $2@),
@fmt
@endfn
@fn PrefixMap::longest_prefix_match r
    ensures r is Some <==> some_prefix(self@, itext(*$1)), r matches Some(x) ==> named(self@, itext(*$1), x.0@, x.1@) && local_of(self@, itext(*$1), x.1@),
@attrs #[verifier::loop_isolation(false)]
@optmap
@argty 1 &'a IriS
@selfarg &'a self
@generics <'a>
@ret Option<(&'a Text, &'a Text)>
@loop 0
    invariant entries(self@, flat($c@)), best(self@, itext(*$1), flat($c@), $i as int, $acc),
@start
    broadcast use {axiom_blen, axiom_blen_pos};
@loopstart 0
    proof { assert(flat($c@)[$i - 1 + 1] == flat($c@)[$i as int]); }
@loopafter 0
    proof { lemma_best(self@, itext(*$1), flat($c@), $acc); }
@endfn
@fn PrefixMap::qualify_optional r
    ensures r is Some <==> some_prefix(self@, itext(*$1)), bare(*self) ==> (r matches Some(s) ==> written(self@, itext(*$1), s@)),
@fmt
@endfn
@fn PrefixMap::qualify r
    ensures bare(*self) ==> (if some_prefix(self@, itext(*$1)) { written(self@, itext(*$1), r@) } else { r@ == "<"@ + itext(*$1) + ">"@ }),
@fmt
@optmap
@endfn
@fn PrefixMap::qualify_and_length r
    ensures bare(*self) ==> (if some_prefix(self@, itext(*$1)) { written(self@, itext(*$1), r.0@) } else { r.0@ == "<"@ + itext(*$1) + ">"@ }) && r.1 as nat == blen(r.0@),
@fmt
@start
    proof { broadcast use axiom_blen; axiom_blen_ascii(); }
@endfn
@fn PrefixMap::qualify_local r
    ensures r is Some <==> some_prefix(self@, itext(*$1)), r matches Some(l) ==> local_of(self@, itext(*$1), l@),
@optmap
@endfn
@fn PrefixMap::resolve_prefix_local r
    ensures names_iri(r, meaning(self@, $1.t(), $2.t())),
@fmt
@generics <S: IntoText>
@argty 1 S
@argty 2 S
@endfn
@fn PrefixMap::resolve r
    ensures names_iri(r, meaning_of(self@, $1@)),
@start
    broadcast use lemma_split;
@endfn
// taking the entries out one by one
@fn PrefixMap@Iterator::next r
    ensures r is None <==> old(self)@.dom() =~= Set::empty(), r matches Some(e) ==> look(old(self)@, e.0@) == Some(itext(e.1)) && final(self)@ == old(self)@.remove(e.0@), r is None ==> final(self)@ == old(self)@,
@ret Option<(Text, IriS)>
@impl impl PrefixMap
@endfn
impl PrefixMap {
    pub uninterp spec fn items(self) -> Seq<(Text, IriS)>;
    /// next until it has nothing more
    #[verifier::external_body] pub fn vx_items(self) -> (r: Vec<(Text, IriS)>) ensures r@ == self.items() { unimplemented!() }
}
#[verifier::external_body] pub broadcast proof fn axiom_items(p: PrefixMap) ensures entries(p@, own_flat(#[trigger] p.items())) {}
pub open spec fn own_flat(v: Seq<(Text, IriS)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|e: (Text, IriS)| (e.0@, itext(e.1))) }
@iter-via other vx_items
@byval-iter other
/// the declarations of o replace those of m
pub open spec fn overriding(m: Decls, o: Decls) -> Decls { m.union_prefer_right(o) }
/// the first n entries have replaced those of m
pub open spec fn among(v: Seq<(Seq<char>, Seq<char>)>, n: int, a: Seq<char>) -> bool { exists|k: int| 0 <= k < n && (#[trigger] v[k]).0 == a }
pub open spec fn merged(m: Decls, v: Seq<(Seq<char>, Seq<char>)>, n: int, r: Decls) -> bool {
    &&& forall|k: int| 0 <= k < n ==> look(r, (#[trigger] v[k]).0) == Some(v[k].1)
    &&& forall|a: Seq<char>| !among(v, n, a) ==> #[trigger] look(r, a) == look(m, a)
}
pub proof fn lemma_merged(m: Decls, o: Decls, v: Seq<(Seq<char>, Seq<char>)>, r: Decls) requires entries(o, v), merged(m, v, v.len() as int, r) ensures r =~= overriding(m, o)
{
    let u = overriding(m, o);
    assert forall|a: Seq<char>| #[trigger] look(r, a) == look(u, a) by {
        if o.dom().contains(a) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == a; assert(look(o, a) == Some(v[k].1)); }
        else if among(v, v.len() as int, a) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).0 == a; assert(look(o, a) == Some(v[k].1)); }
    }
    assert forall|a: Seq<char>| r.dom().contains(a) == u.dom().contains(a) by { assert(look(r, a) == look(u, a)); }
    assert forall|a: Seq<char>| r.dom().contains(a) implies r[a] == u[a] by { assert(look(r, a) == look(u, a)); }
}
pub proof fn lemma_merge_step(m: Decls, o: Decls, v: Seq<(Seq<char>, Seq<char>)>, n: int, r0: Decls, r1: Decls)
    requires entries(o, v), 0 <= n < v.len(), merged(m, v, n, r0), r1 == r0.insert(v[n].0, v[n].1) ensures merged(m, v, n + 1, r1)
{
    assert forall|k: int| 0 <= k < n + 1 implies look(r1, (#[trigger] v[k]).0) == Some(v[k].1) by { assert(look(o, v[k].0) == Some(v[k].1)); assert(look(o, v[n].0) == Some(v[n].1)); }
    assert forall|a: Seq<char>| !among(v, n + 1, a) implies #[trigger] look(r1, a) == look(m, a) by { assert(v[n].0 != a); assert(!among(v, n, a)); assert(look(r0, a) == look(m, a)); }
}
@fn PrefixMap::merge
    ensures final(self)@ =~= overriding(old(self)@, $1@), bare(*final(self)) == bare(*old(self)),
@attrs #[verifier::loop_isolation(false)]
@loop 0
    invariant entries($1@, own_flat($c@)), forall|k: int| 0 <= k < $c@.len() ==> own_flat($c@)[k] == (#[trigger] $c@[k].0@, itext($c@[k].1)),
        merged(old(self)@, own_flat($c@), $i as int, self@), bare(*self) == bare(*old(self)),
@start
    broadcast use axiom_items;
@loopstart 0
    let ghost gr0 = self@;
@loopend 0
    proof { assert(own_flat($c@)[$i - 1] == ($c@[$i - 1].0@, itext($c@[$i - 1].1))); lemma_merge_step(old(self)@, $1@, own_flat($c@), $i - 1, gr0, self@); }
@loopafter 0
    proof { lemma_merged(old(self)@, $1@, own_flat($c@), self@); }
@endfn
// ---- references to IRIs ----
@file prefixmap/src/iri/iri_ref.rs
@type enum IriRef
@erase-generics Cow
pub enum Cow<'a> { Borrowed(&'a IriS), Owned(IriS) }
pub open spec fn cow_text(c: Cow) -> Seq<char> { match c { Cow::Borrowed(i) => itext(*i), Cow::Owned(i) => itext(i) } }
/// what a reference denotes
pub open spec fn ref_text(m: Decls, r: IriRef) -> Option<Seq<char>> { match r { IriRef::Iri(i) => Some(itext(i)), IriRef::Prefixed { prefix: p, local: l } => meaning(m, p@, l@) } }
@file prefixmap/src/prefix_map.rs
@fn PrefixMap::resolve_iriref r
    ensures names_iri(r, ref_text(self@, $1)),
@endfn
@file prefixmap/src/iri/iri_ref.rs
@fn IriRef::get_iri_prefixmap r
    ensures match ref_text($1@, *self) { Some(x) => (iri_valid(x) ==> r is Ok) && (r matches Ok(c) ==> cow_text(c) == x), None => r is Err },
@resmap
@endfn
@fn IriRef@DerefIri::deref_iri r
    ensures match self {
        IriRef::Iri(i) => match $1 { None => r == Ok::<IriRef, PErr>(self), Some(b) => (r is Ok <==> resolved(*b, i) is Ok) && (r matches Ok(x) ==> x == IriRef::Iri(resolved(*b, i)->Ok_0)) },
        IriRef::Prefixed { prefix: p, local: l } => match $2 { None => r is Err, Some(m) => (r matches Ok(x) ==> x is Iri) && (match meaning(m@, p@, l@) { Some(t) => (iri_valid(t) ==> r is Ok) && (r matches Ok(IriRef::Iri(i)) ==> itext(i) == t), None => r is Err }) },
    },
@impl impl IriRef
@ret Result<IriRef, PErr>
@endfn
@file shex_ast/src/ir/ast2ir.rs
@subst-type SchemaIRError PErr
@fn cnv_iri_ref r
    ensures match ref_text($2@, *$1) { Some(x) => (iri_valid(x) || $1 is Iri ==> r is Ok) && (r matches Ok(i) ==> itext(i) == x), None => r is Err },
@ret Result<IriS, PErr>
@endfn
@file rudof_rdf/src/rdf_impl/oxigraph/in_memory.rs
pub struct OxigraphInMemory { pub pm: PrefixMap }
@fn OxigraphInMemory@Rdf::resolve_prefix_local r
    ensures names_iri(r, meaning(self.pm@, $1@, $2@)),
@impl impl OxigraphInMemory
@ret Result<IriS, PErr>
@endfn

// ---- listing the triple constraints of a table ----
@file rbe/src/rbe_table.rs
pub struct ComponentsIter<'a> { pub current: usize, pub table: &'a RbeTable }
/// the n-th triple constraint of the table: its component, key and condition
pub open spec fn tc_at(t: RbeTable, n: int) -> (Key, Pred, MatchCond) { (comp(n as nat), t.component_key@[comp(n as nat)], t.component_cond@[comp(n as nat)]) }
@fn RbeTable::components r
@ret ComponentsIter<'_>
    ensures r.current == 0, *r.table == *self,
@endfn
/// the listing goes through the constraints in the order they were added, each once, and then ends
@fn ComponentsIter@Iterator::next r
@impl impl<'a> ComponentsIter<'a>
@ret Option<(Key, Pred, MatchCond)>
    requires tab_ok(*old(self).table), old(self).current <= old(self).table.component_counter,
    ensures *final(self).table == *old(self).table,
        old(self).current < old(self).table.component_counter ==> r == Some(tc_at(*old(self).table, old(self).current as int)) && final(self).current == old(self).current + 1,
        old(self).current >= old(self).table.component_counter ==> r is None && final(self).current == old(self).current,
@start
    proof { let n = self.current as nat; assert(n < self.table.component_counter ==> self.table.component_key@.dom().contains(comp(n))); }
@endfn
/// a run of the listing from its start yields exactly the constraints added so far
pub open spec fn tcs(t: RbeTable) -> Seq<(Key, Pred, MatchCond)> { Seq::new(t.component_counter as nat, |n: int| tc_at(t, n)) }
pub fn vx_listed(t: &RbeTable) -> (r: Vec<(Key, Pred, MatchCond)>)
    requires tab_ok(*t),
    ensures r@ == tcs(*t),
{
    let mut it = t.components();
    let mut v = Vec::new();
    loop
        invariant *it.table == *t, tab_ok(*t), it.current <= t.component_counter, v@ =~= tcs(*t).take(it.current as int),
        ensures v@ =~= tcs(*t),
        decreases t.component_counter - it.current,
    {
        match it.next() { Some(x) => { v.push(x); } None => { break; } }
    }
    v
}

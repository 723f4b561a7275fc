// C12: the steps of the theorems are what the object store does.

pub open spec fn w_keys(s: Seq<(int, Any)>, k: int) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if kind(s.first().1) == k { seq![s.first().0] + w_keys(s.drop_first(), k) } else { w_keys(s.drop_first(), k) }
}

pub open spec fn in_range(m: Map<int, Any>) -> bool { forall|k: int| #[trigger] m.dom().contains(k) ==> 0 <= k <= 0xffff_ffff_ffff_ffff }

pub open spec fn w_all(s: Seq<(int, Any)>, k: int) -> Seq<(int, Any)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if kind(s.first().1) == k { seq![s.first()] + w_all(s.drop_first(), k) } else { w_all(s.drop_first(), k) }
}

pub open spec fn pairs(s: Seq<int>, m: Map<int, Any>) -> Seq<(int, Any)> {
    Seq::new(s.len(), |i: int| (s[i], m[s[i]]))
}

pub proof fn lem_keys(s: Seq<int>, m: Map<int, Any>, k: int)
    requires forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]), k != -1,
    ensures w_keys(pairs(s, m), k) == ids_in(s, m, k),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_first().len() implies m.dom().contains(#[trigger] s.drop_first()[i]) by { assert(s[i + 1] == s.drop_first()[i]); }
        lem_keys(s.drop_first(), m, k);
        assert(pairs(s, m).drop_first() =~= pairs(s.drop_first(), m));
        assert(m.dom().contains(s[0]));
        assert(pairs(s, m).first() == (s[0], m[s[0]]));
        assert(w_keys(pairs(s, m), k) =~= ids_in(s, m, k));
    }
}

// ---- obligations
/// the step `ins` is what DataMap::insert_new does
pub proof fn c12_insert_new(kT: int, m: Map<int, Any>, v: Any)
    requires in_range(m), kind(v) == kT, !m.dom().contains(0xffff_ffff_ffff_ffff),
    ensures
        insert_new__ok(kT, m, v),
        insert_new__ret(kT, m, v) == fresh(m),
        insert_new__a1(kT, m, v) == ins(m, v),
{
    reveal(fresh);
    reveal(ins);
    lem_asc(m);
    lem_max(asc(m));
    let s = asc(m);
    if s.len() == 0 {
        assert forall|k: int| !m.dom().contains(k) by { if m.dom().contains(k) { assert(s.contains(k)); } }
        assert(m.dom() =~= Set::<int>::empty());
    } else {
        let t = seq_max(s)->Some_0;
        assert(s.contains(t));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
        assert(m.dom().contains(s[i]));
        assert forall|k: int| #[trigger] m.dom().contains(k) implies k <= t by { assert(s.contains(k)); }
        assert(m.dom().len() > 0);
        lem_top(m.dom());
    }
}

//@rec id_of w_keys(s, kT)
/// the sequence `ids_of` is what DataMap::id_of yields
pub proof fn c12_id_of(kT: int, m: Map<int, Any>)
    requires is_kind(kT),
    ensures id_of__ok(kT, m), id_of__ret(kT, m) == ids_of(m, kT),
{
    rec_id_of(kT, m, entries(m));
    lem_asc(m);
    lem_keys(asc(m), m, kT);
    assert(pairs(asc(m), m) =~= entries(m));
}

// ---------------------------------------------------------------- maps, as sequences in ascending order of their keys
spec fn ascending(s: Seq<(Id, AnyIfc)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i].0.0 < #[trigger] s[j].0.0 }
spec fn map_wf(s: Seq<(Id, AnyIfc)>) -> bool { ascending(s) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.wf() && s[i].1.wf() }
/// v is inserted before the values of m are: those replace it
spec fn bm_first(v: (Id, AnyIfc), m: Seq<(Id, AnyIfc)>) -> Seq<(Id, AnyIfc)>
    decreases m.len(),
{
    if m.len() == 0 { seq![v] }
    else if v.0.0 < m[0].0.0 { seq![v] + m }
    else if v.0.0 == m[0].0.0 { m }
    else { seq![m[0]] + bm_first(v, m.skip(1)) }
}

proof fn l_bm(s: Seq<(Id, AnyIfc)>)
    ensures (s.len() > 0 && ascending(s)) ==> ascending(s.skip(1)) && bm_first(s[0], s.skip(1)) == s,
{
    if s.len() > 0 && ascending(s) {
        let r = s.skip(1);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i].0.0 < #[trigger] r[j].0.0 by { assert(r[i] == s[i + 1] && r[j] == s[j + 1]); }
        assert(s =~= seq![s[0]] + r);
        if r.len() > 0 { assert(r[0] == s[1]); } else { assert(seq![s[0]] =~= s); }
    }
}

// C11: the object store. `m` is the map of objects by number, `in_range` what the type of numbers guarantees.
pub open spec fn in_range(m: Map<int, Any>) -> bool { forall|k: int| #[trigger] m.dom().contains(k) ==> 0 <= k <= 0xffff_ffff_ffff_ffff }

pub open spec fn w_all(s: Seq<(int, Any)>, k: int) -> Seq<(int, Any)>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if kind(s.first().1) == k { seq![s.first()] + w_all(s.drop_first(), k) } else { w_all(s.drop_first(), k) }
}

pub open spec fn w_ids(s: Seq<(int, Any)>, k: int) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else if kind(s.first().1) == k { seq![s.first().0] + w_ids(s.drop_first(), k) } else { w_ids(s.drop_first(), k) }
}

/// what "all objects of a type" is worth: exactly the stored objects of that kind, in ascending order of their numbers
pub proof fn lem_w_all(s: Seq<(int, Any)>, k: int)
    ensures
        forall|i: int| 0 <= i < w_all(s, k).len() ==> s.contains(#[trigger] w_all(s, k)[i]) && kind(w_all(s, k)[i].1) == k,
        forall|e: (int, Any)| #[trigger] s.contains(e) && kind(e.1) == k ==> w_all(s, k).contains(e),
        w_ids(s, k) =~= Seq::new(w_all(s, k).len(), |i: int| w_all(s, k)[i].0),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_first();
        lem_w_all(r, k);
        let w = w_all(s, k);
        let q = w_all(r, k);
        assert forall|i: int| 0 <= i < w.len() implies s.contains(#[trigger] w[i]) && kind(w[i].1) == k by {
            if kind(s.first().1) == k && i == 0 { assert(w[0] == s[0]); } else {
                let j = if kind(s.first().1) == k { i - 1 } else { i };
                assert(w[i] == q[j]);
                assert(r.contains(q[j]));
                let h = choose|h: int| 0 <= h < r.len() && r[h] == q[j];
                assert(s[h + 1] == q[j]);
            }
        }
        assert forall|e: (int, Any)| #[trigger] s.contains(e) && kind(e.1) == k implies w.contains(e) by {
            let h = choose|h: int| 0 <= h < s.len() && s[h] == e;
            if h == 0 { assert(w[0] == e); } else {
                assert(r[h - 1] == e);
                assert(r.contains(e));
                let j = choose|j: int| 0 <= j < q.len() && q[j] == e;
                assert(w[if kind(s.first().1) == k { j + 1 } else { j }] == e);
            }
        }
    }
}

// ---- obligations
pub proof fn c11_default()
    ensures default__ok(), default__ret() == Map::<int, Any>::empty(),
{
}

pub proof fn c11_insert_new(kT: int, m: Map<int, Any>, v: Any)
    requires in_range(m), kind(v) == kT,
    ensures
        insert_new__ok(kT, m, v) <==> !m.dom().contains(0xffff_ffff_ffff_ffff),
        insert_new__ok(kT, m, v) ==> ({
            let id = insert_new__ret(kT, m, v);
            &&& !m.dom().contains(id)
            &&& 0 <= id <= 0xffff_ffff_ffff_ffff
            &&& forall|k: int| #[trigger] m.dom().contains(k) ==> k < id
            &&& if m.dom().len() == 0 { id == 1 } else { m.dom().contains(id - 1) }
            &&& insert_new__a1(kT, m, v) == m.insert(id, v)
        }),
{
    lem_asc(m);
    lem_max(asc(m));
    let s = asc(m);
    if s.len() == 0 {
        assert forall|k: int| !m.dom().contains(k) by { if m.dom().contains(k) { assert(s.contains(k)); } }
        assert(m.dom() =~= Set::<int>::empty());
    } else {
        let t = seq_max(s)->Some_0;
        assert(s.contains(t));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == t;
        assert(m.dom().contains(s[i]));
        assert forall|k: int| #[trigger] m.dom().contains(k) implies k <= t by { assert(s.contains(k)); }
        assert(m.dom().len() > 0);
    }
}

pub proof fn c11_insert(kT: int, m: Map<int, Any>, id: int, v: Any)
    requires in_range(m), kind(v) == kT,
    ensures
        insert__ok(kT, m, id, v),
        insert__a1(kT, m, id, v) == m.insert(id, v),
        insert__ret(kT, m, id, v) == (if m.dom().contains(id) { Some(m[id]) } else { None }),
{
}

pub proof fn c11_insert_if_not_exists(kT: int, m: Map<int, Any>, id: int)
    requires in_range(m),
    ensures
        insert_if_not_exists__ok(kT, m, id),
        m.dom().contains(id) ==> insert_if_not_exists__a1(kT, m, id) == m,
        !m.dom().contains(id) ==> ({
            let r = insert_if_not_exists__a1(kT, m, id);
            &&& r.dom() =~= m.dom().insert(id)
            &&& kind(r[id]) == kT
            &&& forall|k: int| #[trigger] m.dom().contains(k) ==> r[k] == m[k]
        }),
{
    ax_default(kT);
}

pub proof fn c11_remove(m: Map<int, Any>, id: int)
    requires in_range(m),
    ensures
        remove__ok(m, id),
        remove__a1(m, id) == m.remove(id),
        remove__ret(m, id) == (if m.dom().contains(id) { Some(m[id]) } else { None }),
{
}

pub proof fn c11_get(kT: int, m: Map<int, Any>, id: int)
    requires in_range(m),
    ensures
        get__ok(kT, m, id) <==> m.dom().contains(id) && kind(m[id]) == kT,
        get__ok(kT, m, id) ==> get__ret(kT, m, id) == m[id],
{
}

pub proof fn c11_get_untyped(m: Map<int, Any>, id: int)
    requires in_range(m),
    ensures
        get_untyped__ok(m, id) <==> m.dom().contains(id),
        get_untyped__ok(m, id) ==> get_untyped__ret(m, id) == m[id],
{
}

pub proof fn c11_try_get_untyped(m: Map<int, Any>, id: int)
    requires in_range(m),
    ensures
        try_get_untyped__ok(m, id),
        try_get_untyped__ret(m, id) == (if m.dom().contains(id) { Result::<Any, ()>::Ok(m[id]) } else { Result::<Any, ()>::Err(()) }),
{
}

pub proof fn c11_get_mut(kT: int, m: Map<int, Any>, id: int, new: Any)
    requires in_range(m), kind(new) == kT,
    ensures
        get_mut__ok(kT, m, id) <==> m.dom().contains(id) && kind(m[id]) == kT,
        get_mut__ok(kT, m, id) ==> get_mut__ret(kT, m, id) == m[id] && get_mut__a1(kT, m, id) == m && get_mut__put(kT, m, id, new) == m.insert(id, new),
{
}

pub proof fn c11_contains(m: Map<int, Any>, id: int)
    ensures contains__ok(m, id), contains__ret(m, id) == m.dom().contains(id),
{
}

//@rec find_all_of_type w_all(s, kT)
pub proof fn c11_find_all_of_type(kT: int, m: Map<int, Any>)
    ensures find_all_of_type__ok(kT, m), find_all_of_type__ret(kT, m) == w_all(entries(m), kT),
{
    rec_find_all_of_type(kT, m, entries(m));
}

//@rec id_of w_ids(s, kT)
pub proof fn c11_id_of(kT: int, m: Map<int, Any>)
    ensures id_of__ok(kT, m), id_of__ret(kT, m) == w_ids(entries(m), kT),
{
    rec_id_of(kT, m, entries(m));
}

pub proof fn c11_from(s: Seq<(int, Any)>)
    ensures from__ok(s), from__ret(s) == from_entries(s),
{
}

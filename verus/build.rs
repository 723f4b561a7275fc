// C12: models, and what the steps of building preserve.

/// kind of the object which a number stands for; -1: there is none
pub open spec fn kd(m: Map<int, Any>, k: int) -> int {
    if m.dom().contains(k) { kind(m[k]) } else { -1 }
}

/// number of the next object
#[verifier::opaque]
pub open spec fn fresh(m: Map<int, Any>) -> int {
    if m.dom().len() == 0 { 1 } else { top(m.dom()) + 1 }
}

#[verifier::opaque]
pub open spec fn ins(m: Map<int, Any>, a: Any) -> Map<int, Any> {
    m.insert(fresh(m), a)
}

#[verifier::opaque]
pub open spec fn upd(m: Map<int, Any>, k: int, a: Any) -> Map<int, Any> {
    m.insert(k, a)
}

/// numbers of the objects of a kind
pub open spec fn ids_in(s: Seq<int>, m: Map<int, Any>, k: int) -> Seq<int>
    decreases s.len(),
{
    if s.len() == 0 { Seq::<int>::empty() } else { (if kd(m, s.first()) == k { seq![s.first()] } else { Seq::<int>::empty() }) + ids_in(s.drop_first(), m, k) }
}

pub open spec fn ids_of(m: Map<int, Any>, k: int) -> Seq<int> {
    ids_in(asc(m), m, k)
}

pub open spec fn all_kd(s: Seq<int>, k: int, m: Map<int, Any>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> kd(m, #[trigger] s[i]) == k
}

pub open spec fn all_in(s: Seq<int>, m: Map<int, Any>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> kd(m, #[trigger] s[i]) != -1
}

/// every object stays, with its kind
#[verifier::opaque]
pub open spec fn grows(m: Map<int, Any>, m2: Map<int, Any>) -> bool {
    forall|k: int| kd(m, k) != -1 ==> #[trigger] kd(m2, k) == kd(m, k)
}

/// no object refers to a missing object or to one of a kind which the attribute doesn't admit
#[verifier::opaque]
pub open spec fn sound(m: Map<int, Any>) -> bool {
    forall|k: int| #[trigger] m.dom().contains(k) ==> refs_any(m[k], m)
}

/// what others are placed relative to has a placement
#[verifier::opaque]
pub open spec fn placed(m: Map<int, Any>) -> bool {
    forall|k: int| #[trigger] m.dom().contains(k) ==> placed_any(m[k], m)
}

/// there is an object of this kind
#[verifier::opaque]
pub open spec fn has(m: Map<int, Any>, k: int) -> bool {
    k != -1 && exists|j: int| #[trigger] kd(m, j) == k
}

pub broadcast proof fn up_has(k: int, m: Map<int, Any>, m2: Map<int, Any>)
    requires #[trigger] grows(m, m2),
    ensures has(m, k) ==> #[trigger] has(m2, k),
{
    reveal(grows);
    reveal(has);
    if has(m, k) {
        let j = choose|j: int| #[trigger] kd(m, j) == k;
        assert(kd(m2, j) == k);
    }
}

pub proof fn lem_empty()
    ensures sound(Map::<int, Any>::empty()), placed(Map::<int, Any>::empty()),
{
    reveal(sound);
    reveal(placed);
}

pub proof fn lem_has(m: Map<int, Any>, k: int, j: int)
    ensures kd(m, j) == k && k != -1 ==> has(m, k),
{
    reveal(has);
}

pub broadcast proof fn up_kd(m: Map<int, Any>, m2: Map<int, Any>, k: int)
    requires #[trigger] grows(m, m2),
    ensures kd(m, k) != -1 ==> #[trigger] kd(m2, k) == kd(m, k),
{
    reveal(grows);
}

pub broadcast proof fn up_all_kd(s: Seq<int>, k: int, m: Map<int, Any>, m2: Map<int, Any>)
    requires #[trigger] grows(m, m2), k != -1,
    ensures all_kd(s, k, m) ==> #[trigger] all_kd(s, k, m2),
{
    reveal(grows);
}

pub broadcast proof fn up_all_in(s: Seq<int>, m: Map<int, Any>, m2: Map<int, Any>)
    requires #[trigger] grows(m, m2),
    ensures all_in(s, m) ==> #[trigger] all_in(s, m2),
{
    reveal(grows);
}

pub proof fn lem_grown(m: Map<int, Any>, m2: Map<int, Any>)
    requires grows(m, m2),
    ensures forall|k: int| kd(m, k) != -1 ==> #[trigger] kd(m2, k) == kd(m, k),
{
    reveal(grows);
}

pub proof fn lem_grows(m: Map<int, Any>, m2: Map<int, Any>)
    ensures (forall|k: int| kd(m, k) != -1 ==> #[trigger] kd(m2, k) == kd(m, k)) ==> grows(m, m2),
{
    reveal(grows);
}

/// the same, for facts about whole values
#[verifier::opaque]
pub open spec fn grew(m: Map<int, Any>, m2: Map<int, Any>) -> bool {
    grows(m, m2)
}

pub proof fn lem_grew(m: Map<int, Any>, m2: Map<int, Any>)
    ensures (forall|k: int| kd(m, k) != -1 ==> #[trigger] kd(m2, k) == kd(m, k)) ==> grows(m, m2) && grew(m, m2),
{
    reveal(grows);
    reveal(grew);
}

pub proof fn lem_fresh(m: Map<int, Any>)
    ensures !m.dom().contains(fresh(m)), kd(m, fresh(m)) == -1,
{
    reveal(fresh);
    if m.dom().len() > 0 { lem_top(m.dom()); }
    else { assert forall|k: int| !m.dom().contains(k) by { if m.dom().contains(k) { assert(m.dom().len() > 0) by { vstd::set::lemma_set_contains_len(m.dom(), k); } } } }
}

pub proof fn lem_ins(m: Map<int, Any>, a: Any)
    ensures
        kd(m, fresh(m)) == -1,
        kd(ins(m, a), fresh(m)) == kind(a),
        ins(m, a).dom().contains(fresh(m)),
        ins(m, a)[fresh(m)] == a,
        grows(m, ins(m, a)),
        sound(m) && refs_any(a, m) ==> sound(ins(m, a)),
        placed(m) && placed_any(a, m) ==> placed(ins(m, a)),
{
    lem_fresh(m);
    reveal(ins);
    reveal(sound);
    reveal(placed);
    let m2 = ins(m, a);
    assert(grows(m, m2)) by { reveal(grows); }
    if sound(m) && refs_any(a, m) {
        assert forall|k: int| #[trigger] m2.dom().contains(k) implies refs_any(m2[k], m2) by {
            if k == fresh(m) { grow_any(a, m, m2); } else { assert(m.dom().contains(k)); grow_any(m[k], m, m2); }
        }
    }
    if placed(m) && placed_any(a, m) {
        assert forall|k: int| #[trigger] m2.dom().contains(k) implies placed_any(m2[k], m2) by {
            if k == fresh(m) { grow_placed(a, m, m2); } else { assert(m.dom().contains(k)); grow_placed(m[k], m, m2); }
        }
    }
}

pub proof fn lem_upd(m: Map<int, Any>, k: int, a: Any)
    ensures
        upd(m, k, a)[k] == a,
        upd(m, k, a).dom().contains(k),
        kd(upd(m, k, a), k) == kind(a),
        kd(m, k) == kind(a) ==> grows(m, upd(m, k, a)),
        kd(m, k) == kind(a) && sound(m) && refs_any(a, m) ==> sound(upd(m, k, a)),
        kd(m, k) == kind(a) && placed(m) && placed_any(a, m) ==> placed(upd(m, k, a)),
{
    reveal(upd);
    reveal(sound);
    reveal(placed);
    let m2 = upd(m, k, a);
    if kd(m, k) == kind(a) {
        assert(grows(m, m2)) by { reveal(grows); }
        if sound(m) && refs_any(a, m) {
            assert forall|j: int| #[trigger] m2.dom().contains(j) implies refs_any(m2[j], m2) by {
                if j == k { grow_any(a, m, m2); } else { assert(m.dom().contains(j)); grow_any(m[j], m, m2); }
            }
        }
    }
    if kd(m, k) == kind(a) && placed(m) && placed_any(a, m) {
        assert forall|j: int| #[trigger] m2.dom().contains(j) implies placed_any(m2[j], m2) by {
            if j == k { grow_placed(a, m, m2); } else { assert(m.dom().contains(j)); grow_placed(m[j], m, m2); }
        }
    }
}

pub proof fn lem_ids_in(s: Seq<int>, m: Map<int, Any>, k: int)
    ensures
        all_kd(ids_in(s, m, k), k, m),
        forall|i: int| 0 <= i < s.len() && kd(m, #[trigger] s[i]) == k ==> ids_in(s, m, k).len() > 0,
    decreases s.len(),
{
    if s.len() > 0 {
        lem_ids_in(s.drop_first(), m, k);
        assert forall|i: int| 0 <= i < s.len() && kd(m, #[trigger] s[i]) == k implies ids_in(s, m, k).len() > 0 by {
            if i > 0 { assert(s.drop_first()[i - 1] == s[i]); }
        }
    }
}

pub proof fn lem_ids(m: Map<int, Any>, k: int)
    ensures all_kd(ids_of(m, k), k, m), has(m, k) ==> ids_of(m, k).len() > 0,
{
    reveal(has);
    lem_asc(m);
    lem_ids_in(asc(m), m, k);
    if k != -1 && exists|j: int| #[trigger] kd(m, j) == k {
        let j = choose|j: int| #[trigger] kd(m, j) == k;
        assert(asc(m).contains(j));
    }
}

pub proof fn lem_set_order<W>(s: Set<W>)
    ensures forall|i: int| 0 <= i < set_order(s).len() ==> s.contains(#[trigger] set_order(s)[i]),
{
    ax_set_order(s);
    assert forall|i: int| 0 <= i < set_order(s).len() implies s.contains(#[trigger] set_order(s)[i]) by {
        assert(set_order(s).contains(set_order(s)[i]));
    }
}

pub proof fn lem_key_order<W, Y>(m: Map<W, Y>)
    ensures forall|i: int| 0 <= i < key_order(m).len() ==> m.dom().contains(#[trigger] key_order(m)[i]),
{
    ax_key_order(m);
    assert forall|i: int| 0 <= i < key_order(m).len() implies m.dom().contains(#[trigger] key_order(m)[i]) by {
        assert(key_order(m).contains(key_order(m)[i]));
    }
}

pub proof fn lem_value_order<W, Y>(m: Map<W, Y>)
    ensures forall|i: int| 0 <= i < value_order(m).len() ==> m.dom().contains(key_order(m)[i]) && #[trigger] value_order(m)[i] == m[key_order(m)[i]],
{
    lem_key_order(m);
}

pub proof fn lem_map_order<W, Y>(m: Map<W, Y>)
    ensures forall|i: int| 0 <= i < map_order(m).len() ==> m.dom().contains(key_order(m)[i]) && #[trigger] map_order(m)[i] == (key_order(m)[i], m[key_order(m)[i]]),
{
    lem_key_order(m);
}

// C14: which objects are related, and how.

/// a relation of kind q relates x and y
#[verifier::opaque]
pub open spec fn linked(m: Map<int, Any>, q: int, x: int, y: int) -> bool {
    exists|k: int| #[trigger] m.dom().contains(k) && bonded(m[k], q, x, y)
}

pub proof fn lem_unlinked()
    ensures forall|q: int, x: int, y: int| !#[trigger] linked(Map::<int, Any>::empty(), q, x, y),
{
    reveal(linked);
}

pub proof fn lem_linked(m: Map<int, Any>, a: Any)
    ensures forall|q: int, x: int, y: int| #[trigger] linked(ins(m, a), q, x, y) <==> linked(m, q, x, y) || bonded(a, q, x, y),
{
    reveal(linked);
    reveal(ins);
    lem_fresh(m);
    let m2 = ins(m, a);
    assert forall|q: int, x: int, y: int| #[trigger] linked(m2, q, x, y) <==> linked(m, q, x, y) || bonded(a, q, x, y) by {
        if linked(m2, q, x, y) {
            let k = choose|k: int| #[trigger] m2.dom().contains(k) && bonded(m2[k], q, x, y);
            if k != fresh(m) { assert(m.dom().contains(k)); assert(m[k] == m2[k]); }
        }
        if linked(m, q, x, y) {
            let k = choose|k: int| #[trigger] m.dom().contains(k) && bonded(m[k], q, x, y);
            assert(m2.dom().contains(k));
            assert(m2[k] == m[k]);
        }
        if bonded(a, q, x, y) { assert(m2.dom().contains(fresh(m))); }
    }
}

pub proof fn lem_relinked(m: Map<int, Any>, k: int, a: Any)
    requires
        m.dom().contains(k),
        forall|q: int, x: int, y: int| !#[trigger] bonded(m[k], q, x, y),
        forall|q: int, x: int, y: int| !#[trigger] bonded(a, q, x, y),
    ensures forall|q: int, x: int, y: int| #[trigger] linked(upd(m, k, a), q, x, y) <==> linked(m, q, x, y),
{
    reveal(linked);
    reveal(upd);
    let m2 = upd(m, k, a);
    assert forall|q: int, x: int, y: int| #[trigger] linked(m2, q, x, y) <==> linked(m, q, x, y) by {
        if linked(m2, q, x, y) {
            let j = choose|j: int| #[trigger] m2.dom().contains(j) && bonded(m2[j], q, x, y);
            assert(j != k);
            assert(m.dom().contains(j));
            assert(m[j] == m2[j]);
        }
        if linked(m, q, x, y) {
            let j = choose|j: int| #[trigger] m.dom().contains(j) && bonded(m[j], q, x, y);
            assert(j != k);
            assert(m2.dom().contains(j));
            assert(m2[j] == m[j]);
        }
    }
}

pub open spec fn tails<A, B>(s: Seq<(A, B)>) -> Seq<B> {
    Seq::new(s.len(), |i: int| s[i].1)
}

/// (type, its objects): x is one of the types and y one of its objects
pub open spec fn in_groups(s: Seq<(int, Set<int>)>, x: int, y: int) -> bool
    decreases s.len(),
{
    s.len() > 0 && (s.first().0 == x && s.first().1.contains(y) || in_groups(s.drop_first(), x, y))
}

pub open spec fn in_pairs(s: Seq<(int, int)>, x: int, y: int) -> bool
    decreases s.len(),
{
    s.len() > 0 && (s.first().0 == x && s.first().1 == y || in_pairs(s.drop_first(), x, y))
}

pub open spec fn in_bonds(s: Seq<RelAssociatesMaterial>, q: int, x: int, y: int) -> bool
    decreases s.len(),
{
    s.len() > 0 && (bonded(Any::RelAssociatesMaterial(s.first()), q, x, y) || in_bonds(s.drop_first(), q, x, y))
}

/// the materials of a builder: each relation is about the material it's filed under
pub open spec fn filed(m: Map<int, RelAssociatesMaterial>) -> bool {
    forall|k: int| #[trigger] m.dom().contains(k) ==> relating(m[k]) == k
}

pub open spec fn of_material(m: Map<int, RelAssociatesMaterial>, x: int, y: int) -> bool {
    m.dom().contains(x) && related(m[x]).contains(y)
}

pub proof fn lem_tails<A, B>(s: Seq<(A, B)>)
    ensures
        tails(s).len() == s.len(),
        s.len() > 0 ==> tails(s).first() == s.first().1 && tails(s).drop_first() == tails(s.drop_first()),
{
    if s.len() > 0 { assert(tails(s).drop_first() =~= tails(s.drop_first())); }
}

pub proof fn lem_enumerated<W>(s: Seq<W>)
    ensures tails(enumerated(s)) == s,
{
    assert(tails(enumerated(s)) =~= s);
}

pub proof fn lem_push(s: Seq<int>, e: int)
    ensures forall|y: int| #[trigger] s.push(e).contains(y) <==> s.contains(y) || y == e,
{
    assert forall|y: int| #[trigger] s.push(e).contains(y) <==> s.contains(y) || y == e by {
        if s.contains(y) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
            assert(s.push(e)[i] == y);
        }
        assert(s.push(e)[s.len() as int] == e);
        if s.push(e).contains(y) {
            let i = choose|i: int| 0 <= i < s.push(e).len() && s.push(e)[i] == y;
            if i < s.len() { assert(s[i] == y); }
        }
    }
}

pub proof fn lem_none(s: Seq<int>)
    ensures s.len() == 0 ==> forall|y: int| !#[trigger] s.contains(y),
{
}

pub proof fn lem_parts(s: Seq<int>)
    ensures s.len() > 0 ==> forall|y: int| #[trigger] s.contains(y) <==> s.first() == y || s.drop_first().contains(y),
{
    if s.len() > 0 {
        assert forall|y: int| #[trigger] s.contains(y) <==> s.first() == y || s.drop_first().contains(y) by {
            if s.contains(y) {
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                if i > 0 { assert(s.drop_first()[i - 1] == y); }
            }
            if s.drop_first().contains(y) {
                let i = choose|i: int| 0 <= i < s.drop_first().len() && s.drop_first()[i] == y;
                assert(s[i + 1] == y);
            }
            assert(s[0] == s.first());
        }
    }
}

pub proof fn lem_members(s: Set<int>)
    ensures forall|y: int| #[trigger] set_order(s).contains(y) <==> s.contains(y),
{
    ax_set_order(s);
}

pub proof fn lem_groups_at(s: Seq<(int, Set<int>)>, x: int, y: int)
    ensures in_groups(s, x, y) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x && s[i].1.contains(y),
    decreases s.len(),
{
    if s.len() > 0 {
        lem_groups_at(s.drop_first(), x, y);
        if in_groups(s, x, y) {
            if s.first().0 == x && s.first().1.contains(y) { assert(s[0].0 == x); }
            else {
                let i = choose|i: int| 0 <= i < s.drop_first().len() && #[trigger] s.drop_first()[i].0 == x && s.drop_first()[i].1.contains(y);
                assert(s[i + 1].0 == x);
            }
        }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x && s[i].1.contains(y) {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x && s[i].1.contains(y);
            if i > 0 { assert(s.drop_first()[i - 1].0 == x); }
        }
    }
}

pub proof fn lem_groups(m: Map<int, Set<int>>)
    ensures forall|x: int, y: int| #[trigger] in_groups(map_order(m), x, y) <==> m.dom().contains(x) && m[x].contains(y),
{
    ax_key_order(m);
    lem_map_order(m);
    assert forall|x: int, y: int| #[trigger] in_groups(map_order(m), x, y) <==> m.dom().contains(x) && m[x].contains(y) by {
        lem_groups_at(map_order(m), x, y);
        if m.dom().contains(x) && m[x].contains(y) {
            assert(key_order(m).contains(x));
            let i = choose|i: int| 0 <= i < key_order(m).len() && key_order(m)[i] == x;
            assert(map_order(m)[i].0 == x);
        }
    }
}

pub proof fn lem_pairs_at(s: Seq<(int, int)>, x: int, y: int)
    ensures in_pairs(s, x, y) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x && s[i].1 == y,
    decreases s.len(),
{
    if s.len() > 0 {
        lem_pairs_at(s.drop_first(), x, y);
        if in_pairs(s, x, y) {
            if s.first().0 == x && s.first().1 == y { assert(s[0].0 == x); }
            else {
                let i = choose|i: int| 0 <= i < s.drop_first().len() && #[trigger] s.drop_first()[i].0 == x && s.drop_first()[i].1 == y;
                assert(s[i + 1].0 == x);
            }
        }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x && s[i].1 == y {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == x && s[i].1 == y;
            if i > 0 { assert(s.drop_first()[i - 1].0 == x); }
        }
    }
}

pub proof fn lem_pairs(m: Map<int, int>)
    ensures forall|x: int, y: int| #[trigger] in_pairs(map_order(m), x, y) <==> m.dom().contains(x) && m[x] == y,
{
    ax_key_order(m);
    lem_map_order(m);
    assert forall|x: int, y: int| #[trigger] in_pairs(map_order(m), x, y) <==> m.dom().contains(x) && m[x] == y by {
        lem_pairs_at(map_order(m), x, y);
        if m.dom().contains(x) && m[x] == y {
            assert(key_order(m).contains(x));
            let i = choose|i: int| 0 <= i < key_order(m).len() && key_order(m)[i] == x;
            assert(map_order(m)[i].0 == x);
        }
    }
}

pub proof fn lem_bonds_at(s: Seq<RelAssociatesMaterial>, q: int, x: int, y: int)
    ensures in_bonds(s, q, x, y) <==> exists|i: int| 0 <= i < s.len() && bonded(Any::RelAssociatesMaterial(#[trigger] s[i]), q, x, y),
    decreases s.len(),
{
    if s.len() > 0 {
        lem_bonds_at(s.drop_first(), q, x, y);
        if in_bonds(s, q, x, y) {
            if bonded(Any::RelAssociatesMaterial(s.first()), q, x, y) { assert(bonded(Any::RelAssociatesMaterial(s[0]), q, x, y)); }
            else {
                let i = choose|i: int| 0 <= i < s.drop_first().len() && bonded(Any::RelAssociatesMaterial(#[trigger] s.drop_first()[i]), q, x, y);
                assert(s[i + 1] == s.drop_first()[i]);
            }
        }
        if exists|i: int| 0 <= i < s.len() && bonded(Any::RelAssociatesMaterial(#[trigger] s[i]), q, x, y) {
            let i = choose|i: int| 0 <= i < s.len() && bonded(Any::RelAssociatesMaterial(#[trigger] s[i]), q, x, y);
            if i > 0 { assert(s.drop_first()[i - 1] == s[i]); }
        }
    }
}

pub proof fn lem_joined(a: Seq<RelAssociatesMaterial>, b: Seq<RelAssociatesMaterial>)
    ensures forall|q: int, x: int, y: int| #[trigger] in_bonds(a + b, q, x, y) <==> in_bonds(a, q, x, y) || in_bonds(b, q, x, y),
{
    assert forall|q: int, x: int, y: int| #[trigger] in_bonds(a + b, q, x, y) <==> in_bonds(a, q, x, y) || in_bonds(b, q, x, y) by {
        lem_bonds_at(a, q, x, y);
        lem_bonds_at(b, q, x, y);
        lem_bonds_at(a + b, q, x, y);
        if in_bonds(a, q, x, y) {
            let i = choose|i: int| 0 <= i < a.len() && bonded(Any::RelAssociatesMaterial(#[trigger] a[i]), q, x, y);
            assert((a + b)[i] == a[i]);
        }
        if in_bonds(b, q, x, y) {
            let i = choose|i: int| 0 <= i < b.len() && bonded(Any::RelAssociatesMaterial(#[trigger] b[i]), q, x, y);
            assert((a + b)[i + a.len()] == b[i]);
        }
        if in_bonds(a + b, q, x, y) {
            let i = choose|i: int| 0 <= i < (a + b).len() && bonded(Any::RelAssociatesMaterial(#[trigger] (a + b)[i]), q, x, y);
            if i < a.len() { assert(a[i] == (a + b)[i]); } else { assert(b[i - a.len()] == (a + b)[i]); }
        }
    }
}

pub proof fn lem_bonds(m: Map<int, RelAssociatesMaterial>)
    ensures filed(m) ==> forall|q: int, x: int, y: int| #[trigger] in_bonds(value_order(m), q, x, y) <==> q == 4 && of_material(m, x, y),
{
    reveal(bonded);
    ax_key_order(m);
    lem_value_order(m);
    if filed(m) {
        assert forall|q: int, x: int, y: int| #[trigger] in_bonds(value_order(m), q, x, y) <==> q == 4 && of_material(m, x, y) by {
            lem_bonds_at(value_order(m), q, x, y);
            if q == 4 && of_material(m, x, y) {
                assert(key_order(m).contains(x));
                let i = choose|i: int| 0 <= i < key_order(m).len() && key_order(m)[i] == x;
                assert(value_order(m)[i] == m[x]);
            }
        }
    }
}

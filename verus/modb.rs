// Library for the functions read from MIR (tools/modb.py): ordered maps, sequences, the numbers and texts the contracts leave open.

pub struct F64 { pub opaque_: int }
pub struct Txt { pub opaque_: int }

// ---- BTreeMap with number keys: ascending order of its keys
pub open spec fn is_asc<W>(s: Seq<int>, m: Map<int, W>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j])
        && (forall|i: int| 0 <= i < s.len() ==> m.dom().contains(#[trigger] s[i]))
        && (forall|k: int| #[trigger] m.dom().contains(k) ==> s.contains(k))
}

pub open spec fn asc<W>(m: Map<int, W>) -> Seq<int> {
    choose|s: Seq<int>| is_asc(s, m)
}

pub open spec fn entries<W>(m: Map<int, W>) -> Seq<(int, W)> {
    Seq::new(asc(m).len(), |i: int| (asc(m)[i], m[asc(m)[i]]))
}

pub open spec fn asc_values<W>(m: Map<int, W>) -> Seq<W> {
    Seq::new(asc(m).len(), |i: int| m[asc(m)[i]])
}

pub open spec fn top(d: Set<int>) -> int {
    choose|k: int| d.contains(k) && forall|j: int| d.contains(j) ==> j <= k
}

pub proof fn lem_top(d: Set<int>)
    requires d.len() > 0,
    ensures d.contains(top(d)), forall|j: int| d.contains(j) ==> j <= top(d),
    decreases d.len(),
{
    let a = d.choose();
    assert(d.contains(a));
    let e = d.remove(a);
    if e.len() == 0 {
        assert forall|j: int| d.contains(j) implies j <= a by { if j != a { assert(e.contains(j)); } }
        assert(d.contains(a) && forall|j: int| d.contains(j) ==> j <= a);
    } else {
        lem_top(e);
        let b = if a > top(e) { a } else { top(e) };
        assert forall|j: int| d.contains(j) implies j <= b by { if j != a { assert(e.contains(j)); } }
        assert(d.contains(b) && forall|j: int| d.contains(j) ==> j <= b);
    }
}

pub proof fn lem_asc_exists<W>(m: Map<int, W>) -> (s: Seq<int>)
    ensures is_asc(s, m),
    decreases m.dom().len(),
{
    if m.dom().len() == 0 {
        let s = Seq::<int>::empty();
        assert forall|k: int| m.dom().contains(k) implies s.contains(k) by { assert(m.dom().len() > 0); }
        s
    } else {
        lem_top(m.dom());
        let t = top(m.dom());
        let r = m.remove(t);
        assert(r.dom() =~= m.dom().remove(t));
        let q = lem_asc_exists(r);
        let s = q.push(t);
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] < s[j] by {
            assert(r.dom().contains(q[i]));
            if j == q.len() { assert(m.dom().contains(q[i])); assert(q[i] != t); }
        }
        assert forall|i: int| 0 <= i < s.len() implies m.dom().contains(#[trigger] s[i]) by {
            if i < q.len() { assert(r.dom().contains(q[i])); }
        }
        assert forall|k: int| m.dom().contains(k) implies s.contains(k) by {
            if k == t { assert(s[q.len() as int] == t); } else { assert(r.dom().contains(k)); assert(q.contains(k)); let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(s[i] == k); }
        }
        s
    }
}

pub proof fn lem_asc<W>(m: Map<int, W>)
    ensures is_asc(asc(m), m),
{
    let s = lem_asc_exists(m);
}

pub proof fn lem_entries<W>(m: Map<int, W>)
    ensures
        forall|i: int| 0 <= i < entries(m).len() ==> m.dom().contains((#[trigger] entries(m)[i]).0) && m[entries(m)[i].0] == entries(m)[i].1,
        forall|i: int, j: int| 0 <= i < j < entries(m).len() ==> (#[trigger] entries(m)[i]).0 < (#[trigger] entries(m)[j]).0,
        forall|k: int| #[trigger] m.dom().contains(k) ==> entries(m).contains((k, m[k])),
{
    lem_asc(m);
    assert forall|k: int| #[trigger] m.dom().contains(k) implies entries(m).contains((k, m[k])) by {
        assert(asc(m).contains(k));
        let i = choose|i: int| 0 <= i < asc(m).len() && asc(m)[i] == k;
        assert(entries(m)[i] == (k, m[k]));
    }
}

pub open spec fn seq_max(s: Seq<int>) -> Option<int>
    decreases s.len(),
{
    if s.len() == 0 { Option::None } else {
        match seq_max(s.drop_first()) {
            Option::None => Option::Some(s.first()),
            Option::Some(k) => Option::Some(if s.first() > k { s.first() } else { k }),
        }
    }
}

pub open spec fn seq_min(s: Seq<int>) -> Option<int>
    decreases s.len(),
{
    if s.len() == 0 { Option::None } else {
        match seq_min(s.drop_first()) {
            Option::None => Option::Some(s.first()),
            Option::Some(k) => Option::Some(if s.first() < k { s.first() } else { k }),
        }
    }
}

pub proof fn lem_max(s: Seq<int>)
    ensures
        seq_max(s) is None <==> s.len() == 0,
        seq_max(s) is Some ==> s.contains(seq_max(s)->Some_0) && forall|k: int| #[trigger] s.contains(k) ==> k <= seq_max(s)->Some_0,
    decreases s.len(),
{
    if s.len() > 0 {
        lem_max(s.drop_first());
        let r = s.drop_first();
        let m = seq_max(s)->Some_0;
        if seq_max(r) is None { assert(s[0] == m); } else if s.first() > seq_max(r)->Some_0 { assert(s[0] == m); } else {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == m;
            assert(s[i + 1] == m);
        }
        assert forall|k: int| #[trigger] s.contains(k) implies k <= m by {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
            if i > 0 { assert(r[i - 1] == k); assert(r.contains(k)); }
        }
    }
}

pub open spec fn int_sum(s: Seq<int>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { s.first() + int_sum(s.drop_first()) }
}

pub open spec fn enumerated<W>(s: Seq<W>) -> Seq<(int, W)> {
    Seq::new(s.len(), |i: int| (i, s[i]))
}

pub open spec fn zipped<W, Y>(s: Seq<W>, t: Seq<Y>) -> Seq<(W, Y)> {
    Seq::new(if s.len() < t.len() { s.len() } else { t.len() }, |i: int| (s[i], t[i]))
}

pub open spec fn from_entries<W, Y>(s: Seq<(W, Y)>) -> Map<W, Y>
    decreases s.len(),
{
    if s.len() == 0 { Map::<W, Y>::empty() } else { from_entries(s.drop_last()).insert(s.last().0, s.last().1) }
}

// ---- HashMap and HashSet: some order of the elements
pub uninterp spec fn set_order<W>(s: Set<W>) -> Seq<W>;
pub uninterp spec fn key_order<W, Y>(m: Map<W, Y>) -> Seq<W>;

pub open spec fn map_order<W, Y>(m: Map<W, Y>) -> Seq<(W, Y)> {
    Seq::new(key_order(m).len(), |i: int| (key_order(m)[i], m[key_order(m)[i]]))
}

pub open spec fn value_order<W, Y>(m: Map<W, Y>) -> Seq<Y> {
    Seq::new(key_order(m).len(), |i: int| m[key_order(m)[i]])
}

#[verifier::external_body]
pub proof fn ax_set_order<W>(s: Set<W>)
    ensures set_order(s).no_duplicates(), forall|x: W| set_order(s).contains(x) <==> s.contains(x),
{
}

#[verifier::external_body]
pub proof fn ax_key_order<W, Y>(m: Map<W, Y>)
    ensures key_order(m).no_duplicates(), forall|x: W| key_order(m).contains(x) <==> m.dom().contains(x),
{
}

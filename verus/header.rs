// ---------------------------------------------------------------- the file header
/// names of view definitions
spec fn ident_ok(s: Txt) -> bool { forall|i: int| 0 <= i < s.len() ==> ({ let c = #[trigger] s[i]; ch_alnum(c) && c != '\'' && c != ' ' && c != '[' || c == '_' || c == '-' || c == '.' || c == ':' }) }
#[verifier::opaque]
spec fn item_chars(s: Txt) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ',' && s[i] != ']' }
/// items of a view definition: not empty, without comma and closing bracket, without white space around them
#[verifier::opaque]
spec fn item_ok(s: Txt) -> bool { s.len() > 0 && item_chars(s) && !is_uspace(s[0]) && !is_uspace(s.last()) }

proof fn l_quote(t: Txt)
    ensures p_lit("'"@, t) == (if t.len() > 0 && t[0] == '\'' { Some(t.skip(1)) } else { None }),
{
    reveal_strlit("'"); reveal(p_lit);
    if t.len() > 0 { assert(t.subrange(0, 1)[0] == t[0]); if t[0] == '\'' { assert(t.subrange(0, 1) =~= "'"@); } }
}

proof fn l_item(s: Txt)
    requires item_ok(s),
    ensures item_chars(lit(" "@, s)), str_trim(lit(" "@, s)) == s, str_trim(s) == s,
{
    reveal_strlit(" "); reveal(lit); reveal(item_chars); reveal(item_ok);
    let w = lit(" "@, s);
    assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] != ',' && w[i] != ']' by { if i > 0 { assert(w[i] == s[i - 1]); } }
    ax_uspace(' ');
    assert(w[0] == ' ');
    assert(w.skip(1) =~= s);
    reveal_with_fuel(trim_l, 3);
    assert(trim_l(s) == s);
    assert(trim_l(w) == s);
    assert(trim_r(s) == s);
}
proof fn l_trim_empty()
    ensures str_trim(Seq::<char>::empty()) == Seq::<char>::empty(),
{ }

/// how a list of items is read: without any there is an empty text
#[verifier::opaque]
spec fn read_items(s: Seq<Txt>) -> Seq<Txt> { if s.len() == 0 { seq![Seq::<char>::empty()] } else { s } }

/// empty texts are left out
proof fn l_nonempty(s: Seq<Txt>)
    requires forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i]),
    ensures forall|f: spec_fn(Txt) -> bool| #![trigger seq_filter(read_items(s), f)]
        (forall|x: Txt| #[trigger] f(x) == (x.len() > 0)) ==> seq_filter(read_items(s), f) == s,
{
    reveal(item_ok); reveal(read_items);
    assert forall|f: spec_fn(Txt) -> bool| (forall|x: Txt| #[trigger] f(x) == (x.len() > 0)) implies #[trigger] seq_filter(read_items(s), f) == s by {
        if s.len() == 0 {
            let e = seq![Seq::<char>::empty()];
            reveal_with_fuel(Seq::filter, 3);
            assert(e.drop_last() =~= Seq::<Txt>::empty());
            assert(s =~= Seq::<Txt>::empty());
        } else { l_nonempty_all(s, f); }
    }
}
proof fn l_nonempty_all(s: Seq<Txt>, f: spec_fn(Txt) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]),
    ensures s.filter(f) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) by { assert(d[i] == s[i]); }
        l_nonempty_all(d, f);
        assert(s =~= d.push(s.last()));
    }
}

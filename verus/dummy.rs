// ---------------------------------------------------------------- objects kept verbatim
/// the text of an object up to (without) the semicolon: quoted texts and comments are closed within it, there is no
/// semicolon outside of them and the last character is a bracket
spec fn dummy_ok(s: Txt) -> bool
    decreases s.len(),
{
    s.len() > 0 && (
    if s.len() == 1 { s[0] == ')' }
    else if s[0] == '\'' {
        let n = span(s.skip(1), |c: char| c != '\'') as int;
        n + 2 < s.len() && dummy_ok(s.skip(n + 2))
    } else if s[0] == '/' && s[1] == '*' {
        match p_comment(s) { Some((_, r)) => r.len() < s.len() && r == s.skip(s.len() - r.len()) && dummy_ok(r), None => false }
    } else { s[0] != ';' && dummy_ok(s.skip(1)) })
}

proof fn l_skip(s: Txt, tail: Txt, n: int)
    requires 0 <= n <= s.len(),
    ensures lit(s, tail).skip(n) == lit(s.skip(n), tail),
{ reveal(lit); assert(lit(s, tail).skip(n) =~= lit(s.skip(n), tail)); }

proof fn l_at(s: Txt, tail: Txt, i: int)
    requires 0 <= i < s.len(),
    ensures lit(s, tail)[i] == s[i], lit(s, tail).len() == s.len() + tail.len(),
{ reveal(lit); }

/// one character as a literal
proof fn l_one(q: Txt, t: Txt)
    requires q.len() == 1,
    ensures p_lit(q, t) == (if t.len() > 0 && t[0] == q[0] { Some(t.skip(1)) } else { None }),
{
    reveal(p_lit);
    if t.len() > 0 { assert(t.subrange(0, 1)[0] == t[0]); if t[0] == q[0] { assert(t.subrange(0, 1) =~= q); } }
}

proof fn l_span_ext(s: Txt, tail: Txt, f: spec_fn(char) -> bool)
    requires span(s, f) < s.len(),
    ensures span(lit(s, tail), f) == span(s, f), !f(s[span(s, f) as int]),
        forall|i: int| 0 <= i < span(s, f) ==> f(#[trigger] s[i]),
    decreases s.len(),
{
    l_at(s, tail, 0);
    if f(s[0]) {
        l_skip(s, tail, 1);
        l_span_ext(s.skip(1), tail, f);
        assert forall|i: int| 0 <= i < span(s, f) implies f(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        assert(s.skip(1)[span(s.skip(1), f) as int] == s[span(s, f) as int]);
    }
}

/// the span depends on what the predicate says only
proof fn l_span_same(s: Txt, f: spec_fn(char) -> bool, g: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] f(c) == g(c),
    ensures span(s, f) == span(s, g),
    decreases s.len(),
{ if s.len() > 0 { l_span_same(s.skip(1), f, g); } }

/// a comment which is closed within s
proof fn l_cm_loop(s: Txt, tail: Txt)
    ensures p_comment_loop0(s) matches Some(((_, _), r)) ==> r.len() < s.len() && r == s.skip(s.len() - r.len())
        && (p_comment_loop0(lit(s, tail)) matches Some(((_, _), r2)) && r2 == lit(r, tail)),
    decreases s.len(),
{
    reveal_strlit("*"); reveal_strlit("/");
    l_one("*"@, s);
    l_one("*"@, lit(s, tail));
    if s.len() > 0 {
        l_at(s, tail, 0);
        l_skip(s, tail, 1);
        if s.len() == 1 { l_empty(tail); assert(s.skip(1) =~= Seq::<char>::empty()); reveal_with_fuel(p_comment_loop0, 2);  l_one("*"@, s.skip(1)); l_one("/"@, s.skip(1)); }
        else {
            l_at(s, tail, 1);
            l_one("/"@, s.skip(1));
            l_one("/"@, lit(s.skip(1), tail));
            l_at(s.skip(1), tail, 0);
            l_skip(s.skip(1), tail, 1);
            assert(s.skip(1).skip(1) =~= s.skip(2));
            l_cm_loop(s.skip(1), tail);
            if let Some((_, r)) = p_comment_loop0(s.skip(1)) { assert(s.skip(1).skip(s.skip(1).len() - r.len()) =~= s.skip(s.len() - r.len())); }
        }
    } else { }
}

proof fn l_cm(s: Txt, tail: Txt)
    ensures p_comment(s) matches Some((_, r)) ==> r.len() < s.len() && r == s.skip(s.len() - r.len()) && p_comment(lit(s, tail)) == Some(((), lit(r, tail))),
{
    reveal(p_comment);
    reveal_strlit("*"); reveal_strlit("/");
    l_one("/"@, s);
    l_one("/"@, lit(s, tail));
    if s.len() >= 2 {
        l_at(s, tail, 0);
        l_skip(s, tail, 1);
        l_one("*"@, s.skip(1));
        l_one("*"@, lit(s.skip(1), tail));
        l_at(s.skip(1), tail, 0);
        l_skip(s.skip(1), tail, 1);
        assert(s.skip(1).skip(1) =~= s.skip(2));
        l_cm_loop(s.skip(2), tail);
        if let Some((_, r)) = p_comment_loop0(s.skip(2)) { assert(s.skip(2).skip(s.skip(2).len() - r.len()) =~= s.skip(s.len() - r.len())); }
    } else if s.len() == 1 { l_one("*"@, s.skip(1)); }
}

/// no comment starts here
proof fn l_no_cm(t: Txt)
    ensures !(t.len() >= 2 && t[0] == '/' && t[1] == '*') ==> p_comment(t) is None,
{
    reveal(p_comment);
    reveal_strlit("*"); reveal_strlit("/");
    l_one("/"@, t);
    if t.len() > 0 { l_one("*"@, t.skip(1)); }
}

/// dropping white space keeps the object's text well formed
proof fn l_dummy_ms(s: Txt, n: int)
    requires dummy_ok(s), 0 <= n < s.len(), forall|i: int| 0 <= i < n ==> is_ms(#[trigger] s[i]),
    ensures dummy_ok(s.skip(n)),
    decreases n,
{
    if n > 0 {
        assert(is_ms(s[0]));
        assert forall|i: int| 0 <= i < n - 1 implies is_ms(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        l_dummy_ms(s.skip(1), n - 1);
        assert(s.skip(1).skip(n - 1) =~= s.skip(n));
    } else { assert(s.skip(0) =~= s); }
}

proof fn l_dummy_last(s: Txt)
    requires dummy_ok(s),
    ensures s[s.len() - 1] == ')',
    decreases s.len(),
{
    if s.len() > 1 {
        if s[0] == '\'' { let n = span(s.skip(1), |c: char| c != '\'') as int; l_dummy_last(s.skip(n + 2)); }
        else if s[0] == '/' && s[1] == '*' { 
            let r = p_comment(s)->Some_0.1;
            assert(dummy_ok(r) && r == s.skip(s.len() - r.len()));
            l_dummy_last(r);
            let m = s.len() - r.len();
            assert(r.len() > 0 && 0 <= m);
            assert(s.skip(m)[r.len() - 1] == s[m + (r.len() - 1)]);
        }
        else { l_dummy_last(s.skip(1)); }
    }
}

/// skipping white space and comments stops within the object's text, and not at a semicolon
proof fn l_ws_in(s: Txt, tail: Txt) -> (i: int)
    requires dummy_ok(s),
    ensures p_space_or_comment_loop0(lit(s, tail)) matches Some((_, r)) && r == lit(s.skip(i), tail), 0 <= i < s.len(), s[i] != ';',
    decreases s.len(),
{
    reveal(p_single_space_or_comment);
    let t = lit(s, tail);
    let f = |c: char| is_ms(c);
    let n = span(s, f) as int;
    l_span_len(s, f);
    l_dummy_last(s);
    l_at(s, tail, 0);
    if is_ms(s[0]) {
        if n == s.len() { l_all_ms(s, f); assert(f(s[s.len() - 1])); assert(false); }
        l_span_ext(s, tail, f);
        l_skip(s, tail, n);
        assert(p_multispace1(t) matches Some((_, r)) && r == lit(s.skip(n), tail));
        assert forall|i: int| 0 <= i < n implies is_ms(#[trigger] s[i]) by { assert(f(s[i])); }
        l_dummy_ms(s, n);
        let j = l_ws_in(s.skip(n), tail);
        assert(s.skip(n).skip(j) =~= s.skip(n + j));
        n + j
    } else {
        assert(p_multispace1(t) is None);
        if s.len() >= 2 && s[0] == '/' && s[1] == '*' {
            l_cm(s, tail);
            let r = p_comment(s)->Some_0.1;
            let j = l_ws_in(r, tail);
            assert(s.skip(s.len() - r.len()).skip(j) =~= s.skip(s.len() - r.len() + j));
            l_at(r, tail, 0);
            s.len() - r.len() + j
        } else {
            if s.len() >= 2 { l_at(s, tail, 1); }
            l_no_cm(t);
            assert(s.skip(0) =~= s);
            0
        }
    }
}

proof fn l_all_ms(s: Txt, f: spec_fn(char) -> bool)
    requires span(s, f) == s.len(),
    ensures forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        l_span_len(s.skip(1), f);
        l_all_ms(s.skip(1), f);
        assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}

/// a quoted text which is closed within s
proof fn l_quoted(s: Txt, tail: Txt)
    requires s.len() > 0, s[0] == '\'', span(s.skip(1), |c: char| c != '\'') + 2 < s.len(),
    ensures ({
        let n = span(s.skip(1), |c: char| c != '\'') as int;
        &&& p_lit("'"@, lit(s, tail)) == Some(lit(s.skip(1), tail))
        &&& forall|f: spec_fn(char) -> bool| (forall|c: char| #[trigger] f(c) == (c != '\'')) ==>
            #[trigger] take_while(lit(s.skip(1), tail), 0, None, f) == Some((s.subrange(1, n as int + 1), lit(s.skip(n as int + 1), tail)))
        &&& p_lit("'"@, lit(s.skip(n as int + 1), tail)) == Some(lit(s.skip(n as int + 2), tail))
    }),
{
    reveal_strlit("'");
    let g = |c: char| c != '\'';
    let n = span(s.skip(1), g) as int;
    l_one("'"@, lit(s, tail));
    l_at(s, tail, 0);
    l_skip(s, tail, 1);
    let u = s.skip(1);
    assert forall|f: spec_fn(char) -> bool| (forall|c: char| #[trigger] f(c) == (c != '\'')) implies
        #[trigger] take_while(lit(u, tail), 0, None, f) == Some((s.subrange(1, n + 1), lit(s.skip(n + 1), tail))) by {
        l_span_same(u, f, g);
        l_span_ext(u, tail, f);
        l_skip(u, tail, n);
        assert(u.skip(n) =~= s.skip(n + 1));
        reveal(lit);
        assert(lit(u, tail).subrange(0, n) =~= s.subrange(1, n + 1));
    }
    l_span_ext(u, tail, g);
    let v = s.skip(n + 1);
    assert(v[0] == u[n]);
    l_at(v, tail, 0);
    l_one("'"@, lit(v, tail));
    l_skip(v, tail, 1);
    assert(v.skip(1) =~= s.skip(n + 2));
}

proof fn l_taken(s: Txt, tail: Txt, n: int)
    requires 0 <= n <= s.len(),
    ensures taken(lit(s, tail), lit(s.skip(n), tail)) == s.subrange(0, n), s.subrange(0, n) + s.skip(n) == s,
{
    reveal(lit);
    assert(taken(lit(s, tail), lit(s.skip(n), tail)) =~= s.subrange(0, n));
    assert(s.subrange(0, n) + s.skip(n) =~= s);
}

/// printed and read again, an object which is kept verbatim stays the same
proof fn l_dummy(s: Txt, k: Txt)
    requires dummy_ok(s) || s.len() == 0,
    ensures Dummy_loop0(lit(s, lit(";"@, k))) matches Some(((v, _), r)) && v == s && r == ws_of(k),
    decreases s.len(),
{
    reveal_strlit(";"); reveal_strlit("'");
    let tail = lit(";"@, k);
    let t = lit(s, tail);
    reveal(p_space_or_comment);
    l_head(";"@, k);
    if s.len() == 0 {
        assert(s =~= Seq::<char>::empty());
        l_empty(tail);
        l_ws(t);
        l_lit(";"@, k);
        l_ws_total(k);
        assert(Dummy_loop0(t) matches Some(((v, _), r)) && v.len() == 0);
        assert(Dummy_loop0(t)->Some_0.0.0 =~= s);
    } else {
        let i = l_ws_in(s, tail);
        l_at(s.skip(i), tail, 0);
        assert(s.skip(i)[0] == s[i]);
        l_one(";"@, lit(s.skip(i), tail));
        l_at(s, tail, 0);
        l_one("'"@, t);
        l_no_cm(t);
        if s.len() >= 2 { l_at(s, tail, 1); }
        if s.len() > 1 && s[0] == '\'' {
            let n = span(s.skip(1), |c: char| c != '\'') as int;
            l_quoted(s, tail);
            l_taken(s, tail, n + 2);
            l_dummy(s.skip(n + 2), k);
            l_at(s.skip(n + 2), tail, 0);
        } else if s.len() > 1 && s[0] == '/' && s[1] == '*' {
            l_cm(s, tail);
            let r = p_comment(s)->Some_0.1;
            l_taken(s, tail, s.len() - r.len());
            l_dummy(r, k);
            l_at(r, tail, 0);
        } else {
            l_skip(s, tail, 1);
            l_taken(s, tail, 1);
            l_dummy(s.skip(1), k);
            if s.len() > 1 { l_at(s.skip(1), tail, 0); } else { l_empty(tail); assert(s.skip(1) =~= Seq::<char>::empty()); }
            assert(p_any(t) matches Some((_, r)) && r == lit(s.skip(1), tail));
        }
    }
}

// ---------------------------------------------------------------- white space and comments
spec fn ws_of(k: Txt) -> Txt { match p_space_or_comment(k) { Some((_, r)) => r, None => k } }

proof fn l_single(k: Txt)
    ensures solid(k) ==> p_single_space_or_comment(k) is None,
{
    reveal(p_single_space_or_comment); reveal(p_comment);
    reveal_strlit("/"); reveal_strlit("*");
    if solid(k) { l_no("/"@, k, 0); }
}

/// nothing is skipped in front of a value
proof fn l_ws(k: Txt)
    ensures solid(k) ==> p_space_or_comment(k) == Some(((), k)),
{
    reveal(p_space_or_comment);
    l_single(k);
}

proof fn l_ws_loop_total(k: Txt)
    ensures p_space_or_comment_loop0(k) is Some,
    decreases k.len(),
{
    if let Some((_, r)) = p_single_space_or_comment(k) {
        e_p_single_space_or_comment(k);
        l_ws_loop_total(r);
    }
}

proof fn l_ws_total(k: Txt)
    ensures p_space_or_comment(k) is Some,
{ reveal(p_space_or_comment); l_ws_loop_total(k); }

proof fn l_ms_span(w: Txt, k: Txt)
    requires forall|i: int| 0 <= i < w.len() ==> is_ms(#[trigger] w[i]), solid(k), w.len() > 0,
    ensures p_multispace1(lit(w, k)) == Some((w, k)),
{
    l_take_while(w, k, 1, None, |c: char| is_ms(c));
}

/// white space in front of a solid text is skipped
proof fn l_ws_skip(w: Txt, k: Txt)
    ensures (w.len() > 0 && solid(k) && forall|i: int| 0 <= i < w.len() ==> is_ms(#[trigger] w[i]))
        ==> p_space_or_comment(lit(w, k)) == Some(((), k)),
{
    if w.len() > 0 && solid(k) && forall|i: int| 0 <= i < w.len() ==> is_ms(#[trigger] w[i]) {
        reveal(p_space_or_comment); reveal(p_single_space_or_comment);
        l_ms_span(w, k);
        l_single(k);
        l_head(w, k);
        assert(p_single_space_or_comment(lit(w, k)) == Some(((), k)));
        assert(p_space_or_comment_loop0(k) == Some(((Seq::<()>::empty(), ()), k)));
    }
}

/// the repetition ends where nothing is left to skip
proof fn l_ws_loop_end(k: Txt)
    ensures p_space_or_comment_loop0(k) matches Some((_, r)) ==> p_single_space_or_comment(r) is None,
    decreases k.len(),
{
    if let Some((_, r)) = p_single_space_or_comment(k) {
        e_p_single_space_or_comment(k);
        l_ws_loop_end(r);
    }
}

proof fn l_ws_idem(k: Txt)
    ensures p_space_or_comment(ws_of(k)) == Some(((), ws_of(k))), ws_of(ws_of(k)) == ws_of(k),
{
    reveal(p_space_or_comment);
    l_ws_total(k);
    l_ws_loop_end(k);
}

proof fn l_ms_pre(w: Txt, k: Txt)
    requires forall|i: int| 0 <= i < w.len() ==> is_ms(#[trigger] w[i]),
    ensures span(lit(w, k), |c: char| is_ms(c)) == w.len() + span(k, |c: char| is_ms(c)),
    decreases w.len(),
{
    reveal(lit);
    let f = |c: char| is_ms(c);
    if w.len() > 0 {
        assert(is_ms(w[0]));
        assert(lit(w, k).skip(1) =~= lit(w.skip(1), k));
        assert forall|i: int| 0 <= i < w.skip(1).len() implies is_ms(#[trigger] w.skip(1)[i]) by { assert(w.skip(1)[i] == w[i + 1]); }
        l_ms_pre(w.skip(1), k);
    } else { assert(lit(w, k) =~= k); }
}

/// white space in front of white space changes nothing
proof fn l_ws_pre(w: Txt, k: Txt)
    ensures (w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> is_ms(#[trigger] w[i]))
        ==> p_space_or_comment(lit(w, k)) == Some(((), ws_of(k))) && ws_of(lit(w, k)) == ws_of(k),
{
    if w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> is_ms(#[trigger] w[i]) {
        reveal(p_space_or_comment); reveal(p_single_space_or_comment);
        let t = lit(w, k);
        let n = span(k, |c: char| is_ms(c)) as int;
        l_ms_pre(w, k);
        l_head(w, k);
        l_span_len(k, |c: char| is_ms(c));
        reveal(lit);
        assert(t.skip(w.len() + n) =~= k.skip(n));
        l_ws_total(k); l_ws_total(t);
        l_ws_loop_total(k); l_ws_loop_total(k.skip(n));
        assert(is_ms(w[0]));
        assert(p_multispace1(t) is Some);
        assert(p_single_space_or_comment(t) == Some(((), k.skip(n))));
        if n == 0 { assert(k.skip(0) =~= k); } else {
            assert(p_multispace1(k) == Some((k.subrange(0, n), k.skip(n))));
            assert(p_single_space_or_comment(k) == Some(((), k.skip(n))));
        }
    }
}

proof fn l_lit_empty(s: Txt, k: Txt)
    ensures s.len() == 0 ==> lit(s, k) == k,
{ reveal(lit); if s.len() == 0 { assert(lit(s, k) =~= k); } }

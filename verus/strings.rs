// ---------------------------------------------------------------- `\X2\HHHH\X0\` encoding of characters
spec fn hexd(c: char) -> bool { is_dig(c) || 'A' <= c <= 'F' || 'a' <= c <= 'f' }

spec fn code_ok(w: Txt) -> bool {
    w.len() == 12 && w[0] == '\\' && w[1] == 'X' && w[2] == '2' && w[3] == '\\' && hexd(w[4]) && hexd(w[5]) && hexd(w[6])
        && hexd(w[7]) && w[8] == '\\' && w[9] == 'X' && w[10] == '0' && w[11] == '\\'
}

/// the characters in d are written as their codes
spec fn tk(c: char, cd: spec_fn(char) -> Txt, d: Set<char>) -> Txt { if d.contains(c) { cd(c) } else { seq![c] } }

spec fn en(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>) -> Txt
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { tk(s[0], cd, d) + en(s.skip(1), cd, d) }
}

spec fn tbl_ok(cd: spec_fn(char) -> Txt, d: Set<char>) -> bool {
    &&& forall|c: char| #[trigger] d.contains(c) ==> code_ok(cd(c)) && c != '\\' && c != 'X' && !hexd(c)
    &&& forall|c: char, e: char| #[trigger] d.contains(c) && #[trigger] d.contains(e) && c != e ==> cd(c) != cd(e)
}

spec fn at(t: Txt, i: int, p: Txt) -> bool { i + p.len() <= t.len() && t.subrange(i, i + p.len()) =~= p }

/// replacing skips a text in which the pattern doesn't start
proof fn l_rep_over(x: Txt, t: Txt, p: Txt, w: Txt)
    requires p.len() > 0, forall|i: int| 0 <= i < x.len() ==> !#[trigger] at(x + t, i, p),
    ensures str_replace(x + t, p, w) == x + str_replace(t, p, w),
    decreases x.len(),
{
    if x.len() == 0 {
        assert(x + t =~= t);
        assert(x + str_replace(t, p, w) =~= str_replace(t, p, w));
    } else {
        let u = x + t;
        let y = x.skip(1);
        assert(u.skip(1) =~= y + t);
        assert(!at(u, 0, p));
        assert forall|i: int| 0 <= i < y.len() implies !#[trigger] at(y + t, i, p) by {
            assert(!at(u, i + 1, p));
            if at(y + t, i, p) {
                assert(u.subrange(i + 1, i + 1 + p.len()) =~= (y + t).subrange(i, i + p.len()));
            }
        }
        l_rep_over(y, t, p, w);
        if u.len() < p.len() {
            assert(y + t == str_replace(y + t, p, w));
            assert(u =~= x + str_replace(t, p, w)) by {
                assert(y + t =~= y + str_replace(t, p, w));
                assert(x =~= seq![x[0]] + y);
            }
        } else {
            assert(str_replace(u, p, w) == seq![u[0]] + str_replace(y + t, p, w));
            assert(x + str_replace(t, p, w) =~= seq![u[0]] + (y + str_replace(t, p, w)));
        }
    }
}

proof fn l_rep_hit(p: Txt, t: Txt, w: Txt)
    requires p.len() > 0,
    ensures str_replace(p + t, p, w) == w + str_replace(t, p, w),
{
    assert((p + t).subrange(0, p.len() as int) =~= p);
    assert((p + t).skip(p.len() as int) =~= t);
}

proof fn l_enc_step(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>, a: char)
    requires !d.contains(a), tbl_ok(cd, d.insert(a)),
    ensures str_replace(en(s, cd, d), seq![a], cd(a)) == en(s, cd, d.insert(a)),
    decreases s.len(),
{
    let d2 = d.insert(a);
    assert(d2.contains(a));
    let p = seq![a];
    if s.len() > 0 {
        let c = s[0];
        let t = en(s.skip(1), cd, d);
        l_enc_step(s.skip(1), cd, d, a);
        if c == a {
            assert(tk(c, cd, d) == p);
            l_rep_hit(p, t, cd(a));
        } else {
            let x = tk(c, cd, d);
            assert(x == tk(c, cd, d2));
            if d.contains(c) { assert(d2.contains(c)); }
            assert forall|i: int| 0 <= i < x.len() implies !#[trigger] at(x + t, i, p) by {
                if at(x + t, i, p) {
                    assert((x + t).subrange(i, i + 1)[0] == x[i]);
                    assert(x[i] == p[0]);
                }
            }
            l_rep_over(x, t, p, cd(a));
        }
    }
}

spec fn no_esc(s: Txt) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\\' }

/// an encoded text starts with a backslash only where a code starts
proof fn l_en_head(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>)
    requires no_esc(s), tbl_ok(cd, d),
    ensures en(s, cd, d).len() >= s.len(), s.len() > 0 ==> en(s, cd, d).len() > 0,
        s.len() > 0 && d.contains(s[0]) ==> en(s, cd, d).len() >= 12 && en(s, cd, d)[0] == '\\' && en(s, cd, d)[1] == 'X',
        s.len() > 0 && !d.contains(s[0]) ==> en(s, cd, d)[0] == s[0] && en(s, cd, d)[0] != '\\'
            && en(s, cd, d).skip(1) == en(s.skip(1), cd, d),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] s.skip(1)[i] != '\\' by { assert(s[i + 1] != '\\'); }
        l_en_head(s.skip(1), cd, d);
        if !d.contains(s[0]) {
            assert(en(s, cd, d).skip(1) =~= en(s.skip(1), cd, d));
        }
    }
}

/// the last backslash of a code doesn't start another code
proof fn l_tail(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>, t: Txt)
    requires no_esc(s), tbl_ok(cd, d), t == en(s, cd, d),
    ensures !(t.len() >= 4 && t[0] == 'X' && t[1] == '2' && t[2] == '\\' && hexd(t[3])),
{
    l_en_head(s, cd, d);
    if t.len() >= 4 && t[0] == 'X' && t[1] == '2' && t[2] == '\\' {
        if s.len() > 0 && !d.contains(s[0]) {
            let s1 = s.skip(1);
            assert forall|i: int| 0 <= i < s1.len() implies #[trigger] s1[i] != '\\' by { assert(s[i + 1] != '\\'); }
            l_en_head(s1, cd, d);
            assert(t.skip(1)[0] == t[1]);
            if s1.len() > 0 && !d.contains(s1[0]) {
                let s2 = s1.skip(1);
                assert forall|i: int| 0 <= i < s2.len() implies #[trigger] s2[i] != '\\' by { assert(s1[i + 1] != '\\'); }
                l_en_head(s2, cd, d);
                assert(t.skip(1).skip(1)[0] == t[2]);
                assert(t.skip(1).skip(1)[1] == t[3]);
            }
        }
    }
}

proof fn l_dec_step(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>, a: char)
    requires d.contains(a), tbl_ok(cd, d), no_esc(s),
    ensures str_replace(en(s, cd, d), cd(a), seq![a]) == en(s, cd, d.remove(a)),
    decreases s.len(),
{
    let d2 = d.remove(a);
    let p = cd(a);
    if s.len() > 0 {
        let c = s[0];
        let r = s.skip(1);
        let t = en(r, cd, d);
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != '\\' by { assert(s[i + 1] != '\\'); }
        l_dec_step(r, cd, d, a);
        let x = tk(c, cd, d);
        if c == a {
            l_rep_hit(p, t, seq![a]);
        } else {
            assert(x == tk(c, cd, d2));
            l_tail(r, cd, d, t);
            assert(s[0] != '\\');
            assert forall|i: int| 0 <= i < x.len() implies !#[trigger] at(x + t, i, p) by {
                if at(x + t, i, p) {
                    let u = x + t;
                    let v = u.subrange(i, i + 12);
                    assert(v[0] == u[i] && v[1] == u[i + 1] && v[2] == u[i + 2] && v[3] == u[i + 3] && v[4] == u[i + 4]);
                    assert(u[i] == x[i]);
                    if d.contains(c) {
                        if i == 0 {
                            assert(u.subrange(0, 12) =~= x);
                        } else if i == 11 {
                            assert(u[12] == t[0] && u[13] == t[1] && u[14] == t[2] && u[15] == t[3]);
                        } else {
                            assert(i == 3 || i == 8);
                            if i == 8 { assert(u[10] == x[10]); } else { assert(u[4] == x[4]); }
                        }
                    }
                }
            }
            l_rep_over(x, t, p, seq![a]);
        }
    }
}

/// encoded characters don't occur any more
proof fn l_en_not(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>, q: char)
    requires d.contains(q), tbl_ok(cd, d),
    ensures forall|i: int| 0 <= i < en(s, cd, d).len() ==> #[trigger] en(s, cd, d)[i] != q,
    decreases s.len(),
{
    if s.len() > 0 {
        l_en_not(s.skip(1), cd, d, q);
        let x = tk(s[0], cd, d);
        let t = en(s.skip(1), cd, d);
        assert forall|i: int| 0 <= i < x.len() implies x[i] != q by { if d.contains(s[0]) { } }
        assert forall|i: int| 0 <= i < (x + t).len() implies #[trigger] (x + t)[i] != q by {
            if i >= x.len() { assert((x + t)[i] == t[i - x.len()]); } else { assert((x + t)[i] == x[i]); }
        }
    }
}

proof fn l_en_none(s: Txt, cd: spec_fn(char) -> Txt, d: Set<char>)
    requires forall|c: char| !#[trigger] d.contains(c),
    ensures en(s, cd, d) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        l_en_none(s.skip(1), cd, d);
        assert(!d.contains(s[0]));
        assert(seq![s[0]] + s.skip(1) =~= s);
    } else {
        assert(s =~= Seq::empty());
    }
}

/// the characters which are written encoded, and their codes
spec fn code(c: char) -> Txt {
    if c == 'Ä' { "\\X2\\00C4\\X0\\"@ } else if c == 'ä' { "\\X2\\00E4\\X0\\"@ } else if c == 'Ö' { "\\X2\\00D6\\X0\\"@ }
    else if c == 'ö' { "\\X2\\00F6\\X0\\"@ } else if c == 'Ü' { "\\X2\\00DC\\X0\\"@ } else if c == 'ü' { "\\X2\\00FC\\X0\\"@ }
    else if c == 'ß' { "\\X2\\00DF\\X0\\"@ } else if c == '\'' { "\\X2\\0027\\X0\\"@ } else { Seq::empty() }
}

spec fn coded(c: char) -> bool { c == 'Ä' || c == 'ä' || c == 'Ö' || c == 'ö' || c == 'Ü' || c == 'ü' || c == 'ß' || c == '\'' }

/// the text as it is written
spec fn all_coded() -> Set<char> {
    Set::<char>::empty().insert('Ä').insert('ä').insert('Ö').insert('ö').insert('Ü').insert('ü').insert('ß').insert('\'')
}

spec fn written(s: Txt) -> Txt { en(s, |c: char| code(c), all_coded()) }

proof fn l_code_ok()
    ensures tbl_ok(|c: char| code(c), all_coded()),
{
    reveal_strlit("\\X2\\00C4\\X0\\"); reveal_strlit("\\X2\\00E4\\X0\\"); reveal_strlit("\\X2\\00D6\\X0\\"); reveal_strlit("\\X2\\00F6\\X0\\");
    reveal_strlit("\\X2\\00DC\\X0\\"); reveal_strlit("\\X2\\00FC\\X0\\"); reveal_strlit("\\X2\\00DF\\X0\\"); reveal_strlit("\\X2\\0027\\X0\\");
    let cd = |c: char| code(c);
    let d = all_coded();
    assert forall|c: char| #[trigger] d.contains(c) implies code_ok(cd(c)) && c != '\\' && c != 'X' && !hexd(c) by { assert(coded(c)); }
    assert forall|c: char, e: char| #[trigger] d.contains(c) && #[trigger] d.contains(e) && c != e implies cd(c) != cd(e) by {
        assert(coded(c) && coded(e));
        assert(cd(c)[6] != cd(e)[6] || cd(c)[7] != cd(e)[7]);
    }
}

proof fn l_tbl_sub(cd: spec_fn(char) -> Txt, d: Set<char>, e: Set<char>)
    requires tbl_ok(cd, d), forall|c: char| #[trigger] e.contains(c) ==> d.contains(c),
    ensures tbl_ok(cd, e),
{ }

/// one more character is encoded
proof fn l_enc(s: Txt, cd: spec_fn(char) -> Txt, all: Set<char>, d: Set<char>, a: char, p: Txt, w: Txt)
    requires tbl_ok(cd, all), forall|c: char| #[trigger] d.contains(c) ==> all.contains(c), all.contains(a), !d.contains(a), p =~= seq![a], w == cd(a),
    ensures str_replace(en(s, cd, d), p, w) == en(s, cd, d.insert(a)), forall|c: char| #[trigger] d.insert(a).contains(c) ==> all.contains(c),
{
    l_tbl_sub(cd, all, d.insert(a));
    l_enc_step(s, cd, d, a);
}

/// one character less is encoded
proof fn l_dec(s: Txt, cd: spec_fn(char) -> Txt, all: Set<char>, d: Set<char>, a: char, p: Txt, w: Txt)
    requires tbl_ok(cd, all), forall|c: char| #[trigger] d.contains(c) ==> all.contains(c), d.contains(a), p =~= seq![a], w == cd(a), no_esc(s),
    ensures str_replace(en(s, cd, d), w, p) == en(s, cd, d.remove(a)), forall|c: char| #[trigger] d.remove(a).contains(c) ==> all.contains(c),
{
    l_tbl_sub(cd, all, d);
    l_dec_step(s, cd, d, a);
}

proof fn l_text_all(x: Txt, k: Txt)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '\'', k.len() > 0 && k[0] == '\'',
    ensures forall|f: spec_fn(char) -> bool| (forall|c: char| #[trigger] f(c) == (c != '\'')) ==> #[trigger] take_while(lit(x, k), 0, None, f) == Some((x, k)),
{
    assert forall|f: spec_fn(char) -> bool| (forall|c: char| #[trigger] f(c) == (c != '\'')) implies #[trigger] take_while(lit(x, k), 0, None, f) == Some((x, k)) by {
        l_take_while(x, k, 0, None, f);
    }
}

// Contracts of the two conversion functions of /repo/ifc_rs/src/id/ifc_uuid.rs. `source.rs` holds that file's constants
// and free functions, copied from it on every run.
mod source {
    include!("source.rs");
    pub fn encode(b: [u8; 16]) -> Vec<u8> {
        encode_base16_to_base64(b)
    }
    pub fn decode(d: [u8; 22]) -> Vec<u8> {
        decode_base16_to_base64(d)
    }
}

/// buildingSMART: two digits for the first byte, four for each further three bytes
fn digit(b: &[u8; 16], i: usize) -> u8 {
    if i == 0 {
        b[0] >> 6
    } else if i == 1 {
        b[0] & 63
    } else {
        let g = 1 + 3 * ((i - 2) / 4);
        let v = (b[g] as u32) * 65536 + (b[g + 1] as u32) * 256 + b[g + 2] as u32;
        ((v >> (6 * (3 - (i - 2) % 4))) & 63) as u8
    }
}

/// each harness is one contract: any argument which satisfies the precondition (assume), then the postcondition (assert);
/// the argument's type is finite and the unwinding is complete (Kani checks that), so this is for all arguments
#[cfg(kani)]
mod harness {
    use super::*;

    #[kani::proof]
    #[kani::unwind(24)]
    fn encode() {
        let b: [u8; 16] = kani::any();
        let r = source::encode(b);
        assert!(r.len() == 22, "22 digits");
        for i in 0..22 {
            assert!(r[i] == digit(&b, i), "the digit buildingSMART defines");
        }
    }

    #[kani::proof]
    #[kani::unwind(24)]
    fn decode() {
        let d: [u8; 22] = kani::any();
        for i in 0..22 {
            kani::assume(d[i] < 64);
        }
        assert!(source::decode(d).len() == 16, "16 bytes");
    }

    #[kani::proof]
    #[kani::unwind(24)]
    fn decode_digits() {
        let b: [u8; 16] = kani::any();
        let mut d = [0; 22];
        for i in 0..22 {
            d[i] = digit(&b, i);
        }
        let r = source::decode(d);
        assert!(r.len() == 16, "16 bytes");
        for i in 0..16 {
            assert!(r[i] == b[i], "the bytes whose digits they are");
        }
    }

    /// vacuity: must fail
    #[kani::proof]
    #[kani::unwind(24)]
    fn canary() {
        let d: [u8; 22] = kani::any();
        for i in 0..22 {
            kani::assume(d[i] < 64);
        }
        assert!(d[0] < 4, "canary");
    }
}

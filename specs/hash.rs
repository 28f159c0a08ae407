// the SHA-512 digest, and the big-endian word made of eight bytes
pub uninterp spec fn sha(s: Seq<u8>) -> Seq<u8>;
pub axiom fn ax_sha(s: Seq<u8>) ensures sha(s).len() == 64;
pub uninterp spec fn word(s: Seq<u8>) -> u64;
pub open spec fn words(s: Seq<u8>, n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| word(s.skip(8 * i).take(8))) }
// the hash values of a seed: the words of its digest over and over
#[verifier::opaque]
pub open spec fn gen_hashes(seed: Seq<u8>, n: int) -> Seq<u64> { Seq::new(n as nat, |i: int| word(sha(seed).skip(8 * (i % 8)).take(8))) }
pub proof fn gh_step(seed: Seq<u8>, n: int)
    requires 0 <= n, n % 8 == 0
    ensures gen_hashes(seed, n + 8) =~= gen_hashes(seed, n) + words(sha(seed), 8)
{
    reveal(gen_hashes);
    assert forall|i: int| 0 <= i && i < n + 8 implies gen_hashes(seed, n + 8)[i] == (gen_hashes(seed, n) + words(sha(seed), 8))[i] by {
        if i >= n { assert(i % 8 == i - n) by(nonlinear_arith) requires n % 8 == 0, n <= i, i < n + 8; }
    }
}
pub proof fn gh_take(seed: Seq<u8>, n: int, m: int)
    requires 0 <= n <= m
    ensures gen_hashes(seed, m).take(n) =~= gen_hashes(seed, n), gen_hashes(seed, m).len() == m
{ reveal(gen_hashes); }

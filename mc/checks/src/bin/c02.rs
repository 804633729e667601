//! C02: what the decoder returns against an independent RFC 1035 decoder.
//! C01 (the same inputs, totality only) is the binary c01.
use checks::decode_inputs;
fn main() {
    decode_inputs::run("C02");
}

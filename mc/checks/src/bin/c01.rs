//! C01: the decoder is total.
use checks::decode_inputs;
fn main() {
    decode_inputs::run("C01");
}

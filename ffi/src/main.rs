//! The generator of foreign-language bindings, as in /repo/uniffi-bindgen.rs, where the stand-ins are in place.
fn main() {
    uniffi::uniffi_bindgen_main()
}

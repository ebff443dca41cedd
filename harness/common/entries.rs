entries! {
    props: h_roundtrip h_structure;
    props2: h_reprint h_tail h_sequence h_prefix h_spans h_total h_total_item h_discriminant h_predicate h_path h_path_args h_path_frame h_path_types;
    props3: h_generics h_punctuated h_edit h_edit_item h_error h_error_long h_accessors h_kf_syntax h_kf_bounded_lifetime;
}

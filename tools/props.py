"""For every property: the unit it is proved in, the functions it depends on
(patterns over the paths of extracted functions, matched in full) and the lemmas
that state it over their contracts."""
ENC = [r'encoder::.*']
DECODER = [r'decoder::Decoder::.*', r'decoder::Default for Decoder::default', r'decoder::primitives::(decode_varint|decode_key|extract_.*)',
           r'typ::.*', r'decoder::error::.*']
SC = r'(bool|int32|int64|uint32|uint64|sint32|sint64|fixed32|fixed64|sfixed32|sfixed64|float|double|bytes)'
SCT = ['bool', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'float', 'double']
DTABLES = r'thm_table\d|lemma_rows|lemma_root|lemma_keys|lemma_table'
TABLES = DTABLES + r'|thm_enc_table'
PROPS = {
    'P01': dict(unit='protos', crates=['protos'], cone=[r'(en|de)coder::primitives::(en|de)code_varint', r'decoder::primitives::extract_varint', r'decoder::Decoder::extract_varint', r'(en|de)coder::primitives::(en|de)code_uint64', r'encoder::Encoder::encode_uint64'],
                theorems=['thm_varint_round_trip', 'thm_varint_minimal', 'lemma_varint_len', 'lemma_vdec_extend']),
    'P02': dict(unit='protos', crates=['protos'], cone=[r'decoder::.*', r'typ::.*'], theorems=['lemma_step_go', 'thm_stop']),
    'P03': dict(unit='protos', crates=['protos'], cone=[r'encoder::primitives::.*', r'encoder::Encoder::encode', r'encoder::Encoder::encode_' + SC, r'encoder::lit::From<&(?!Vec<(?!u8)).*', r'encoder::error::.*',
                        r'decoder::primitives::decode_(varint|key|' + SC + r')', r'decoder::lit::From<DecoderLit> for (?!Vec<(?!u8)).*'] + DECODER,
                theorems=['thm_round_trip_' + x for x in SCT] + ['thm_message', 'thm_into']),
    'P04': dict(unit='protos', crates=['protos'], cone=[r'encoder::primitives::.*', r'encoder::Encoder::encode', r'encoder::Encoder::encode_(bytes|.*_vec)', r'encoder::lit::From<&Vec<.*', r'encoder::error::.*',
                        r'decoder::primitives::decode_.*', r'decoder::lit::From<DecoderLit> for Vec<.*'] + DECODER,
                theorems=['thm_packed', 'thm_packed_float', 'thm_packed_double', 'thm_message', 'thm_into']),
    'P05': dict(unit='protos', crates=['protos'], cone=ENC, theorems=['thm_into']),
    'P06': dict(unit='protos', crates=['protos'], cone=[r'encoder::Encoder::.*', r'encoder::primitives::encode_key', r'decoder::primitives::decode_key', r'decoder::Decoder::decode(_key)?', r'typ::.*'],
                theorems=['lemma_key', 'thm_stop']),
    'P07': dict(unit='protos', crates=['protos'], cone=ENC + DECODER, theorems=['thm_message', 'thm_into']),
    'P08': dict(unit='protos', crates=['protos'], cone=DECODER, theorems=['thm_chunks']),
    'P09': dict(unit='protos', crates=['protos'], cone=DECODER, theorems=['thm_stop', 'thm_chunks']),
    'P10': dict(unit='protos', crates=['protos'], cone=[r'decoder::lit::.*', r'decoder::primitives::decode_(?!key).*'], theorems=['thm_packed']),
    'P11': dict(unit='protos', crates=['protos'], cone=ENC, theorems=['lemma_partial_prefix', 'lemma_partial_seq']),
    'U01': dict(unit='huffman', crates=['huffman'], cone=[r'encoder::encode'], tables=r'thm_enc_table',
                theorems=['thm_enc_table', 'thm_encoding_unique', 'thm_encodable']),
    'U02': dict(unit='huffman', crates=['huffman'], cone=[r'encoder::encode', r'decoder::(?!speed::).*'], tables=TABLES,
                theorems=['thm_huffman_round_trip', 'thm_decoding_unique', 'thm_enc_table', 'lemma_table']),
    'U03': dict(unit='huffman', crates=['huffman'], cone=[r'decoder::.*'], tables=DTABLES,
                theorems=['thm_same_result', 'thm_eos_refused', 'thm_decoding_unique', 'lemma_table']),
    'U04': dict(unit='huffman', crates=['huffman'], cone=[r'decoder::reader::DecodeReader::(find_target|decode_next)'], tables=TABLES,
                theorems=['thm_table1', 'thm_table2', 'thm_table3', 'thm_table4', 'thm_table5', 'thm_table_follows', 'thm_enc_table', 'lemma_table', 'lemma_root']),
    'U05': dict(unit='huffman', crates=['huffman'], cone=[r'flattener::.*', r'parser::.*'], tables='',
                theorems=['thm_flat_decodes', 'lemma_walk', 'lemma_good_row', 'lemma_good_sym', 'lemma_last_key']),
    'H01': dict(unit='hpack', crates=['hpack'], cone=[r'encoder::primitives::.*', r'decoder::primitives::.*', r'encoder::Encoder::(encode_indexed|encode_indexed_name|update_max_dynamic_size)'], tables=TABLES,
                theorems=['thm_int_round_trip', 'thm_int_shortest', 'thm_int_prefix']),
    'H02': dict(unit='hpack', crates=['hpack', 'huffman'], cone=[r'decoder::(?!speed::).*', r'table::.*'], tables=DTABLES, theorems=['lemma_step', 'lemma_run_all', 'thm_insert', 'thm_resize']),
    'H03': dict(unit='hpack', crates=['hpack', 'huffman'], cone=[r'encoder::primitives::.*', r'decoder::primitives::.*', r'encoder::encode', r'decoder::decode', r'decoder::reader::.*',
                        r'encoder::Encoder::(encode_literal|encode_indexed_name)', r'decoder::Decoder::decode_(literal|indexed_name|literal_with_indexing|literal_without_indexing|literal_never_indexed|.*)'], tables=TABLES,
                theorems=['thm_str_round_trip', 'thm_str_prefix', 'thm_encodable', 'thm_huffman_round_trip']),
    'H04': dict(unit='hpack', crates=['hpack'], cone=[r'table::dynamic::.*', r'table::Table::(insert|update_max_dynamic_size|len|size|max_dynamic_size|dynamic_\w+|with_\w+|get)', r'table::Default for Table::default'], tables='',
                theorems=['thm_evict', 'thm_insert', 'thm_resize']),
    'H05': dict(unit='hpack', crates=['hpack'], cone=[r'table::.*', r'decoder::Decoder::(decode_.*|with_.*)', r'decoder::primitives::decode_integer'], tables='',
                theorems=['thm_lookup', 'thm_lookup_after_insert']),
    'H06': dict(unit='hpack', crates=['hpack'], cone=[r'table::.*', r'encoder::Encoder::encode'], tables='',
                theorems=['thm_found', 'thm_find', 'lemma_found']),
    'H07': dict(unit='hpack', crates=['hpack', 'huffman'], cone=[r'(?!decoder::speed::).*'], tables=TABLES,
                theorems=['thm_item', 'thm_blocks', 'thm_encoder_flags', 'thm_decoder_flags', 'thm_str_round_trip', 'thm_int_round_trip', 'lemma_enc_fits']),
    'H08': dict(unit='hpack', crates=['hpack'], cone=[r'encoder::.*', r'table::.*'], tables=r'thm_enc_table',
                theorems=['thm_representation', 'thm_encoder_flags', 'thm_int_round_trip', 'thm_find', 'thm_found']),
    'H09': dict(unit='hpack', crates=['hpack', 'huffman'], cone=[r'decoder::(?!speed::).*', r'table::.*'], tables=DTABLES,
                theorems=['lemma_step', 'thm_step_prefix', 'lemma_run_all', 'thm_decoder_flags']),
    'H10': dict(unit='hpack', crates=['hpack'], cone=[r'encoder::Encoder::.*', r'encoder::input::.*', r'decoder::Decoder::.*', r'table::.*'], tables='',
                theorems=['thm_unindexed', 'thm_decode_unindexed', 'thm_encoder_flags', 'thm_decoder_flags']),
    'H11': dict(unit='hpack', crates=['hpack', 'huffman'], cone=[r'decoder::(?!speed::).*', r'table::.*'], tables=DTABLES,
                theorems=['thm_step_prefix', 'thm_step_cut', 'thm_resume', 'lemma_run_all']),
    'H12': dict(unit='hpack', crates=['hpack'], cone=[r'decoder::Decoder::.*', r'decoder::primitives::decode_integer', r'decoder::Default for Decoder::default', r'table::.*'], tables='',
                theorems=['thm_size_update', 'thm_resize']),
}

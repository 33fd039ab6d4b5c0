"""The parts of the built-in lookup tables."""
NAMES = ['byte_range_table/full', 'chunk_16_bits/full', 'binary_xor_table/full', 'binary_and_table/full', 'zkevm_opcodes/full', 'zkevm_opcodes/opcodes_only', 'sha256_sparse_base4/full', 'sha256_sparse_base4/first_column',
         'sha256_sparse_base7/full', 'sha256_sparse_base7/first_column', 'sha256_sparse_base7/second_column', 'sha256_reverse_sparse_base4/full', 'sha256_reverse_sparse_base7/full',
         'sha256_maj/full', 'sha256_maj/first_column', 'sha256_ch/full', 'sha256_ch/first_column']

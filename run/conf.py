"""Which functions and lemmas state each property, and how the checks are run."""

V1 = "bloom::v1::BloomFilter::"
V2 = "bloom::v2::BloomFilter::"
W = "bloom::BloomFilter::"
IT = "bloom::v2::IndexIterator::"
FP = "bloom::v1::Fingerprint::"
RD = ["from_reader", "_from_reader", "from_reader_with_flags"]

INSERT = [V1 + "insert_bytes", V2 + "insert_iter", V2 + "insert", V2 + "insert_bytes", W + "insert_bytes"]
QUERY = [V1 + "contains_bytes", V1 + "get_nth_bit", V2 + "contains_iter", V2 + "contains", V2 + "contains_bytes", W + "contains_bytes"]
UNION = [V1 + "union_merge", V2 + "union_merge", V2 + "union", W + "union_merge"]
SAME = [V1 + "has_same_params", V2 + "has_same_params", W + "has_same_params"]
WRITE = [V1 + "write", V2 + "write", W + "write", "bloom::Flags::to_bytes"]
READ = [V1 + x for x in RD] + [V2 + x for x in RD] + [W + "from_reader", "bloom::read_flags", "bloom::Flags::from_bytes",
        "bloom::<OptLevel as TryFrom>::try_from", "utils::read_le_u64", "utils::read_le_f64", "utils::check_remaining"]
SIZE = [V1 + "size_in_u64", V1 + "size_in_bytes", V2 + "size_in_bytes", W + "size_in_bytes"]
META = [p + x for p in (V1, V2, W) for x in ("capacity", "fpp", "count_estimate", "is_full")] + [W + "version", W + "data"]
V1HASH = [FP + "new", FP + "fingerprint", "bloom::v1::<Fingerprint as Iterator>::next", "hash::fnv::*"]
V2HASH = ["bloom::v2::xorshift_star", IT + "*", "bloom::v2::<IndexIterator as Iterator>::next", V2 + "build_index_iter", V2 + "index_iter",
          V2 + "has_optimal_buckets", "hash::wyhash::*", "hash::digest", "hash::<*"]
BITSET = ["bitset::*"]

TRIP1 = ["bloom::v1::lemma_layout", "bloom::v1::prop_round_trip"]
TRIP2 = ["bloom::v2::lemma_layout", "bloom::v2::prop_round_trip"]
TRIP = TRIP1 + TRIP2 + ["bloom::lemma_front", "bloom::lemma_trip1", "bloom::lemma_trip2", "bloom::prop_round_trip"]

# property -> functions whose contracts state it, and lemmas (module::name)
PROPS = {
    "C01": (INSERT + QUERY + UNION + [W + "fill"],
            ["bloom::v1::prop_insert_keeps", "bloom::v1::prop_union_keeps", "bloom::v2::prop_insert_keeps", "bloom::v2::prop_union_keeps",
             "bloom::prop_step_keeps", "bloom::prop_sequence_keeps", "bloom::prop_fill_keeps"] + TRIP),
    "C02": (INSERT + ["bitset::array::BitSet::set_nth_bit", "bitset::array::BitSet::set_value_nth_bit", "bitset::vec::VecBitSet::set_nth_bit",
                      "bitset::vec::VecBitSet::set_value_nth_bit"], []),
    "C03": (INSERT + [p + x for p in (V1, V2, W) for x in ("is_full", "capacity", "count_estimate")], []),
    "C04": (UNION + SAME + ["bitset::array::BitSet::union", "bitset::vec::VecBitSet::union"],
            ["bloom::v1::prop_union_keeps", "bloom::v2::prop_union_keeps"]),
    "C05": ([V2 + "intersection", V2 + "intersection_merge", V2 + "has_same_params", "bitset::array::BitSet::intersection", "bitset::vec::VecBitSet::intersection"],
            ["bloom::v2::prop_intersection_keeps"]),
    "C06": ([V1 + "clear", V2 + "clear", W + "clear", "bitset::array::BitSet::clear", "bitset::vec::VecBitSet::clear"],
            ["bloom::v1::prop_cleared", "bloom::v2::prop_cleared"]),
    "C07": (WRITE + READ, TRIP),
    "C08": (V1HASH + [V1 + x for x in RD] + [V1 + "write", V1 + "insert_bytes", V1 + "contains_bytes", V1 + "get_nth_bit", V1 + "bits",
            "bloom::Flags::to_bytes", "bloom::Flags::from_bytes"], TRIP1),
    "C09": (V2HASH + [V2 + x for x in RD] + [V2 + "write", V2 + "insert_iter", V2 + "contains_iter", "bloom::Flags::to_bytes", "bloom::Flags::from_bytes",
            "bitset::array::BitSet::get_nth_bit", "bitset::array::BitSet::set_value_nth_bit", "bitset::vec::VecBitSet::get_nth_bit",
            "bitset::vec::VecBitSet::set_value_nth_bit"], TRIP2),
    "C10": ([V1 + "from_reader_with_flags", V2 + "from_reader_with_flags", W + "from_reader", W + "partial_from_reader", "utils::check_remaining"] + SIZE + META,
            ["bloom::v1::prop_partial", "bloom::v1::prop_partial_refused", "bloom::v2::prop_partial", "bloom::v2::prop_partial_refused", "bloom::prop_partial"]),
    "C11": (WRITE, []),
    "C12": (READ + [W + "partial_from_reader"], ["bloom::v1::prop_partial_refused", "bloom::v2::prop_partial_refused"]),
    "C13": (V2HASH + [V2 + x for x in ("insert", "insert_bytes", "insert_iter", "contains", "contains_bytes", "contains_iter", "_insert_bytes_old", "_contains_bytes_old")], []),
    "C14": (BITSET, []),
    "C15": ([V1 + "with_capacity", V2 + "make", V2 + "with_capacity", W + "with_version_capacity_opt", W + "with_version_capacity", W + "with_capacity",
             "bloom::v1::<BloomFilter as TryFrom>::try_from", "bloom::v2::<BloomFilter as TryFrom>::try_from", "bloom::<BloomFilter as TryFrom>::try_from",
             "bloom::Params::*", "bloom::Flags::new", "bloom::Flags::opt", "bloom::utils::*", "bitset::vec::byte_cap_from_bit_cap",
             "bitset::vec::VecBitSet::with_bit_capacity", "bitset::array::BitSet::new"],
            ["bloom::v1::prop_first", "bloom::v2::prop_first"]),
    "C16": ([p + x for p in (V1, V2) for x in ("update_count", "count_ones", "count_zeros", "count_common_entries", "union_merge")] +
            [V2 + "intersection_merge", V1 + "count_ones_in_common", W + "count_common_entries", V1 + "estimated_p",
             "bitset::array::BitSet::count_ones", "bitset::array::BitSet::count_ones_in_common", "bitset::array::BitSet::count_zeros"],
            ["bloom::v1::prop_common", "bloom::v2::prop_common"]),
    "C17": ([W + "*", "bloom::<BloomFilter as TryFrom>::try_from", "bloom::Params::*"], ["bloom::prop_fill_keeps", "bloom::prop_partial"] + TRIP),
    "C18": (["cli::main_create", "cli::main_insert", "cli::parallel_insert", "cli::process_file", "cli::count_lines_parallel", "cli::optimal_jobs"],
            ["cli::lemma_grown_trans", "cli::lemma_insert_grows", "cli::lemma_line", "cli::lemma_union_grows", "cli::lemma_merged", "cli::lemma_holds_joined", "cli::lemma_loaded", "cli::lemma_made"]),
    "C19": (["cli::main_check", "cli::optimal_jobs"], ["cli::lemma_check_step", "cli::lemma_file_step", "cli::lemma_checked_add", "cli::lemma_nothing_checked"]),
    "C20": (["cli::main_create", "cli::main_insert", "cli::main_check", "cli::main_show", "cli::show_bf_properties", "utils::<ByteSize as Display>::fmt"], ["cli::lemma_loaded", "cli::lemma_grown_loadable"]),
    "C21": (["py::*"], ["py::prop_dumps_loads"]),
    "C22": (["utils::ByteSize::*", "utils::<ByteSize as PartialEq>::eq", "utils::<ByteSize as PartialOrd>::partial_cmp",
             "utils::<ByteSize as Display>::fmt", "utils::<ByteSize as Hash>::hash"] + SIZE, []),
}

# functions whose only content is a floating point formula: the verifier knows the formula only
# structurally, so a different but equal expression cannot be told from a wrong one; for these an
# undischarged postcondition is left to the concrete comparison with the reference formulas
FORMULA = ["bloom::utils::*", V1 + "with_capacity", V2 + "make", V1 + "update_count", V2 + "update_count", V1 + "count_common_entries",
           V2 + "count_common_entries", V1 + "estimated_p", V1 + "size_in_u64", "bitset::vec::byte_cap_from_bit_cap",
           "utils::ByteSize::in_mb", "utils::ByteSize::in_unit"]

# in these functions C12 also owns every obligation that is not a postcondition (a possible panic)
PANIC_SCOPE = ["bloom::*", "bitset::*", "hash::*", "utils::read*", "utils::check*"]

# harness: (cases, seconds) per tier
BUDGET = {"quick": (60000, 20), "thorough": (10000000, 300)}
BOUNDED = {"C18": "cli", "C19": "cli", "C20": "cli", "C21": "py"}

//! Harnesses: each drives the repository's public API on inputs that are
//! symbolic under /verif/symex and concrete under src/bin/replay.rs.
pub mod sym;
pub mod x64ref;

mod h_asm;
mod h_cli;
mod h_mac;
mod h_obj;
pub mod machoref;
mod h_x64;

macro_rules! harnesses {
    ($($h:ident = $m:ident :: $f:ident;)*) => {
        $(#[no_mangle] pub extern "C" fn $h() { $m::$f() })*
        pub const ALL: &[(&str, extern "C" fn())] = &[$((stringify!($h), $h)),*];
    };
}

harnesses! {
    x64_mov_r64_r64 = h_x64::mov_r64_r64;
    x64_mov_r32_r32 = h_x64::mov_r32_r32;
    x64_mov_r16_r16 = h_x64::mov_r16_r16;
    x64_mov_r64_imm = h_x64::mov_r64_imm;
    x64_mov_r32_imm = h_x64::mov_r32_imm;
    x64_mov_r16_imm = h_x64::mov_r16_imm;
    x64_mem_reg = h_x64::mem_reg;
    x64_mem_reg_offset = h_x64::mem_reg_offset;
    x64_mem_rip = h_x64::mem_rip;
    x64_mem_sib = h_x64::mem_sib;
    x64_push_pop_reg = h_x64::push_pop_reg;
    x64_push_imm = h_x64::push_imm;
    x64_ret_syscall = h_x64::ret_syscall;
    x64_imm_offset64 = h_x64::imm_offset64;
    x64_imm_offset32 = h_x64::imm_offset32;
    x64_reg_names = h_x64::reg_names;
    x64_reg_codes = h_x64::reg_codes;
    x64_buffers = h_x64::buffers;
    x64_buffer_numbers = h_x64::buffer_numbers;
    x64_buffer_refuses = h_x64::buffer_refuses;
    mac_header = h_mac::header;
    mac_header_flag_sets = h_mac::header_flag_sets;
    mac_lc_segment = h_mac::lc_segment;
    mac_lc_segment_wide = h_mac::lc_segment_wide;
    mac_lc_symtab = h_mac::lc_symtab;
    mac_lc_dysymtab = h_mac::lc_dysymtab;
    mac_lc_build_version = h_mac::lc_build_version;
    mac_nlist = h_mac::nlist;
    mac_reloc = h_mac::reloc;
    mac_reloc_codes = h_mac::reloc_codes;
    mac_back_header = h_mac::back_header;
    mac_back_segment = h_mac::back_segment;
    mac_back_fixed = h_mac::back_fixed;
    mac_back_build_version = h_mac::back_build_version;
    mac_back_many = h_mac::back_many;
    mac_back_nlist = h_mac::back_nlist;
    mac_back_reloc = h_mac::back_reloc;
    mac_back_size_mismatch = h_mac::back_size_mismatch;
    mac_section_attrs = h_mac::section_attrs;
    mac_back_names = h_mac::back_names;
    mac_swap_header = h_mac::swap_header;
    mac_swap_segment = h_mac::swap_segment;
    mac_swap_symtab = h_mac::swap_symtab;
    mac_swap_dysymtab = h_mac::swap_dysymtab;
    mac_swap_build_version = h_mac::swap_build_version;
    mac_swap_nlist = h_mac::swap_nlist;
    mac_swap_reloc = h_mac::swap_reloc;
    mac_strings = h_mac::strings;
    mac_strings_big = h_mac::strings_big;
    mac_lc_segment_many = h_mac::lc_segment_many;
    mac_swap_segment_many = h_mac::swap_segment_many;
    mac_lc_build_version_many = h_mac::lc_build_version_many;
    mac_swap_build_version_many = h_mac::swap_build_version_many;
    mac_chunked = h_mac::chunked;
    mac_truncated = h_mac::truncated;
    obj_layout = h_obj::layout;
    obj_contents = h_obj::contents;
    obj_symbols = h_obj::symbols;
    obj_symbol_names = h_obj::symbol_names;
    obj_relocs = h_obj::relocs;
    obj_big_contents = h_obj::big_contents;
    obj_big_symbols = h_obj::big_symbols;
    obj_big_relocs = h_obj::big_relocs;
    obj_sink_pieces = h_obj::sink_pieces;
    obj_sink_fails = h_obj::sink_fails;
    asm_data_num = h_asm::data_num;
    asm_data_list = h_asm::data_list;
    asm_data_str = h_asm::data_str;
    asm_data_mixed = h_asm::data_mixed;
    asm_data_utf8 = h_asm::data_utf8;
    asm_data_unclosed = h_asm::data_unclosed;
    asm_mov_regs = h_asm::mov_regs;
    asm_mov_imm = h_asm::mov_imm;
    asm_mov_not_reg = h_asm::mov_not_reg;
    asm_expr = h_asm::expr;
    asm_expr_bad = h_asm::expr_bad;
    asm_push_imm = h_asm::push_imm;
    asm_push_reg = h_asm::push_reg;
    asm_plain = h_asm::plain;
    asm_stray = h_asm::stray;
    asm_missing = h_asm::missing;
    asm_spelling = h_asm::spelling;
    asm_spelling_long = h_asm::spelling_long;
    asm_spelling_pairs = h_asm::spelling_pairs;
    asm_commas = h_asm::commas;
    asm_programs = h_asm::programs;
    asm_globals = h_asm::globals;
    asm_label_names = h_asm::label_names;
    asm_bss_data = h_asm::bss_data;
    asm_symbol_operands = h_asm::symbol_operands;
    asm_symbol_operand_names = h_asm::symbol_operand_names;
    asm_undefined_symbol = h_asm::undefined_symbol;
    asm_undefined_among = h_asm::undefined_among;
    asm_symbol_reg16 = h_asm::symbol_reg16;
    asm_any_bytes = h_asm::any_bytes;
    asm_any_tail = h_asm::any_tail;
    asm_any_tokens = h_asm::any_tokens;
    asm_data_list_long = h_asm::data_list_long;
    asm_data_zeros = h_asm::data_zeros;
    asm_data_str_long = h_asm::data_str_long;
    asm_programs_long = h_asm::programs_long;
    asm_programs_many = h_asm::programs_many;
    asm_programs_switching = h_asm::programs_switching;
    asm_label_names_long = h_asm::label_names_long;
    asm_symbol_operands_long = h_asm::symbol_operands_long;
    asm_symbol_operands_many = h_asm::symbol_operands_many;
    asm_any_long = h_asm::any_long;
    asm_source_buffers = h_asm::source_buffers;
    asm_out_large = h_asm::out_large;
    asm_source_pieces = h_asm::source_pieces;
    asm_source_split = h_asm::source_split;
    asm_source_fails = h_asm::source_fails;
    asm_out_pieces = h_asm::out_pieces;
    asm_out_fails = h_asm::out_fails;
    cli_names = h_cli::names;
    cli_sources = h_cli::sources;
    cli_faults = h_cli::faults;
    cli_large = h_cli::large;
    cli_bad_source = h_cli::bad_source;
    cli_any_source = h_cli::any_source;
    cli_arguments = h_cli::arguments;
    cli_unreadable = h_cli::unreadable;
    cli_unwritable = h_cli::unwritable;
    cli_same_file = h_cli::same_file;
    cli_read_fails = h_cli::read_fails;
    cli_write_fails = h_cli::write_fails;
    cli_history = h_cli::history;
    asm_again = h_asm::again;
    obj_again = h_obj::again;
    obj_read_back = h_obj::read_back;
    obj_big_read_back = h_obj::big_read_back;
    asm_names_apart = h_asm::names_apart;
    asm_names_apart_undefined = h_asm::names_apart_undefined;
    asm_keyword_names = h_asm::keyword_names;
    asm_data_commas = h_asm::data_commas;
    asm_read_back = h_asm::read_back;
    asm_parts = h_asm::parts;
    asm_twice = h_asm::twice;
    asm_twice_sources = h_asm::twice_sources;
    asm_twice_long = h_asm::twice_long;
    cli_diag_line = h_cli::diag_line;
    cli_diag_line_many = h_cli::diag_line_many;
    cli_diag_symbol = h_cli::diag_symbol;
    cli_diag_file = h_cli::diag_file;
}

/// keeps the exit status an argument in the optimised program
#[no_mangle]
pub extern "C" fn leave_with(code: i32) -> ! {
    std::process::exit(code)
}

/// the tool's `main`, made a library function by check.py
#[cfg(feature = "cli")]
#[no_mangle]
pub extern "C" fn cli_entry() -> i32 {
    at_asm_cli::verif_cli_main()
}

/// the executor sends text meant for standard error through here when a harness wants it
#[no_mangle]
pub fn verif_eprint(a: std::fmt::Arguments<'_>) -> u64 {
    sym::cli::eprint(a);
    0
}

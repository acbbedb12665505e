"""What each check is built from.  absl: "system" (the installed Abseil; for the
modules the project's own build compiles) or "shim" (shim/absl; for the rest)."""

# Every source of the repository's library; any other nsasm/*.cc is new, and is
# linked in too if it compiles.
ALL_SOURCES = ["nsasm/%s.cc" % n for n in (
    "error", "memory", "mnemonic", "ranges", "execution_state", "calling_convention", "token", "expression",
    "addressing_mode", "opcode_map", "instruction", "decode", "directive", "statement", "file", "parse",
    "module", "assembler", "disassemble", "rom")]

ASAN = "address,undefined"
CHECKS = {}


def check(pid, title, harness, sources, absl="system", **kw):
    CHECKS[pid] = dict(title=title, harness=harness, sources=sources, absl=absl, **kw)


check("C01", "address arithmetic", ["c01_address.cc"], ["nsasm/error.cc"], sanitize=ASAN)
check("C02", "SNES to ROM mapping", ["c02_mapping.cc"], ["nsasm/error.cc", "nsasm/memory.cc", "nsasm/rom.cc"], flags=["-O2"])
check("C03", "ROM reads", ["c03_rom_read.cc"], ["nsasm/error.cc", "nsasm/memory.cc", "nsasm/rom.cc"], sanitize=ASAN)
ROM = ["nsasm/error.cc", "nsasm/memory.cc", "nsasm/rom.cc"]
check("C04", "ROM file loading", ["c04_rom_load.cc"], ROM, sanitize=ASAN, link=["-Wl,--wrap=fopen,--wrap=fseek,--wrap=ftell,--wrap=fread"])
check("C05", "ROM overwriting and saving", ["c05_overwrite.cc"], ROM, sanitize=ASAN)
check("C06", "ROM identity sink", ["c06_identity.cc"], ROM, sanitize=ASAN)
check("C07", "claimed byte ranges", ["c07_data_range.cc"], ["nsasm/error.cc", "nsasm/ranges.cc"], sanitize=ASAN)
check("C08", "range map", ["c08_range_map.cc"], ["nsasm/error.cc", "nsasm/ranges.cc"], sanitize=ASAN)
check("C09", "names", ["c09_names.cc"], ["nsasm/mnemonic.cc"], sanitize=ASAN)
check("C10", "errors and locations", ["c10_errors.cc"], ["nsasm/error.cc"], sanitize=ASAN)
check("C11", "quick_dump", ["c11_quick_dump.cc"], [], sanitize="undefined", tools={"quick_dump": ["util/quick_dump.cc"] + ROM})
check("C12", "little-endian reads", ["c12_little_endian.cc"], ["nsasm/error.cc", "nsasm/memory.cc"], sanitize=ASAN)
check("C13", "numeric types", ["c13_numeric.cc"], ["nsasm/error.cc"], sanitize=ASAN)

SHIM = dict(absl="shim")
CORE = ["nsasm/%s.cc" % n for n in ("error", "mnemonic", "execution_state", "calling_convention", "token", "expression", "addressing_mode",
                                    "opcode_map", "instruction", "directive", "statement", "parse", "memory", "decode")]
check("C14", "opcode table", ["c14_opcodes.cc"], CORE, **SHIM)
check("C17", "addressing mode deduction", ["c17_deduce.cc"], CORE, **SHIM)
check("C15", "machine code codec", ["c15_codec.cc"], CORE, **SHIM)
check("C19", "lexical grammar", ["c19_tokens.cc"], CORE, sanitize=ASAN, **SHIM)
check("C18", "expressions", ["c18_expr.cc"], CORE, sanitize=ASAN, **SHIM)
check("C16", "source lines", ["c16_lines.cc"], CORE, sanitize=ASAN, **SHIM)

ASM = CORE + ["nsasm/%s.cc" % n for n in ("ranges", "file", "module", "assembler")]
check("C21", "assembled bytes", ["c21_assemble.cc"], ASM, sanitize=ASAN, **SHIM)
check("C22", "order independence", ["c22_order.cc"], ASM, sanitize=ASAN, **SHIM)
check("C23", "names and scopes", ["c23_names.cc"], ASM, sanitize=ASAN, **SHIM)
check("C24", "no byte assembled twice", ["c24_overlap.cc"], ASM, sanitize=ASAN, **SHIM)
check("C25", "control flow and widths", ["c25_flow.cc"], ASM, sanitize=ASAN, **SHIM)
check("C26", "processor modes", ["c26_modes.cc"], CORE, sanitize=ASAN, **SHIM)
check("C27", "instruction widths", ["c27_widths.cc"], ASM, sanitize=ASAN, **SHIM)
check("C20", "printed statements", ["c20_print.cc"], CORE, sanitize=ASAN, **SHIM)
check("C30", "relative branches", ["c30_branches.cc"], ASM, sanitize=ASAN, **SHIM)
check("C31", "jump targets, conventions, names", ["c31_targets.cc"], ASM, sanitize=ASAN, **SHIM)
DIS = CORE + ["nsasm/disassemble.cc"]
check("C29", "disassembly", ["c29_disassemble.cc"], DIS, sanitize=ASAN, **SHIM)
check("C28", "reassembled listings", ["c28_reassemble.cc"], ASM + ["nsasm/disassemble.cc"], sanitize=ASAN, **SHIM)
TOOL_SRC = ASM + ["nsasm/rom.cc"]
check("C33", "quick_assemble", ["c33_quick_assemble.cc"], TOOL_SRC, sanitize=ASAN, tools_share=True,
      tools={"quick_assemble": ["util/quick_assemble.cc"]}, **SHIM)
DIS_TOOL = ASM + ["nsasm/rom.cc", "nsasm/disassemble.cc"]
check("C35", "disassembling tools", ["c35_disassemble_tools.cc"], DIS_TOOL, sanitize=ASAN, tools_share=True,
      tools={t: ["util/%s.cc" % t] for t in ("quick_assemble", "quick_disassemble", "disassemble_more")}, **SHIM)
check("C36", "inspection tools", ["c36_inspect_tools.cc"], DIS_TOOL, sanitize=ASAN, tools_share=True,
      tools={t: ["util/%s.cc" % t] for t in ("dumb_disassemble", "print_opcode_map", "interactive_parse")}, **SHIM)
check("C32", "error locations", ["c32_error_location.cc"], ASM, sanitize=ASAN, **SHIM)
check("C34", "any text", ["c34_any_text.cc"], ASM, sanitize=ASAN, **SHIM)
check("C37", "tracked registers and stack", ["c37_tracking.cc"], CORE, sanitize=ASAN, **SHIM)
check("C38", "executed instructions", ["c38_execute.cc"], CORE, sanitize=ASAN, **SHIM)
check("C39", "source files", ["c39_source_files.cc"], ASM, sanitize=ASAN, **SHIM)
check("C40", "refusing output", ["c40_refusing_output.cc"], ASM, sanitize=ASAN, **SHIM)
check("C41", "independence", ["c41_independent.cc"], DIS_TOOL, sanitize="thread", **SHIM)

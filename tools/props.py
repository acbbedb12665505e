"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


prop("C01", "Address arithmetic stays inside the bank",
     "Offsetting an address by any integer (positive or negative) changes only its low 16 bits, modulo 65536, so 65536 steps return to the start and opposite steps cancel. The difference of two addresses is defined exactly when they share a bank, lies in -32768..32767, and added back to the second gives the first. Addresses and label values compare by numeric value, keep the address they were made from, and print as `$` and six hex digits; an integer converts to an address exactly when it is in 0..$FFFFFF.",
     ["inputs"], "all 24-bit addresses, all 32-bit offsets, all pairs of addresses",
     "the repository has no test of address arithmetic; only indirect uses with a handful of addresses",
     ["nsasm/address.h"], [("bank-wrapping add and subtract", "nsasm/address.h:AddWrapped/SubtractWrapped")], ["return values of the address operations"],
     "property-based testing against an integer model", "millions of generated address/offset pairs; not exhaustive over 2^56")
prop("C02", "SNES addresses map to the documented cartridge offsets",
     "For LoROM, HiROM and ExHiROM every 24-bit CPU address either maps to the cartridge offset given by the hardware memory map (ExHiROM: banks $80-$FF to the first 4 MiB, banks $00-$7D to the second) or is an error, exactly when the address is work RAM, the system half of banks $00-$3F/$80-$BF, or the lower half of a LoROM bank. The error, once given a path, reports that address.",
     ["inputs", "configurations"], "all 2^24 addresses under all three mappings",
     "no test touches the mapping; 50 million address/mapping pairs and many region boundaries",
     ["nsasm/rom.h", "nsasm/rom.cc"], [("mapping function", "nsasm/rom.cc:SnesToROMAddress")], ["returned offset or error"],
     "exhaustive enumeration against an independent memory-map table", "complete over the whole input space on every run")
prop("C03", "ROM reads return exactly the mapped bytes or an error",
     "Reading n bytes at an address of a ROM image yields exactly n bytes, byte i being the image byte that the address plus i (wrapping inside the bank) maps to; if any of those addresses is unmapped or beyond the image, or n is negative, the read is an error; for an address it names the ROM file and one of the addresses that was to be read. Reading zero bytes succeeds with no bytes.",
     ["inputs", "configurations"], "all mappings, image sizes, addresses and lengths (including lengths that wrap a bank or exceed 64 KiB)",
     "no test reads from a ROM; the interesting cases are reads that cross a bank end or the end of the image",
     ["nsasm/rom.cc", "nsasm/rom.h", "nsasm/memory.cc"], [("contiguous fast path and byte-wise wrap path", "nsasm/rom.cc:Rom::Read")], ["bytes or error returned by a read"],
     "property-based testing against a byte-at-a-time model, under ASan and UBSan", "sampled, biased to bank ends, image end and 32/64 KiB lengths")
prop("C04", "ROM files load exactly when they look like ROMs, with the right mapping",
     "A file loads iff its size is below 2 GiB and a multiple of 4096, or 512 more than one, its payload (after dropping that 512-byte copier header) is at least 64 KiB, and exactly one of the LoROM and HiROM header positions holds a complementary checksum pair; anything else (unreadable paths and files whose reading fails half-way included) is an error naming the path, never a crash. The mapping is LoROM if the LoROM header matched, otherwise HiROM below 4 MiB and ExHiROM from 4 MiB up, and the loaded contents are the payload bytes; loading never leaves a file open.",
     ["inputs"], "all files: sizes, header kinds, checksum validity at both positions, contents",
     "no test loads a file", ["nsasm/rom.cc"], [("size checks, header stripping, checksum heuristic", "nsasm/rom.cc:LoadRomFile")], ["success or error, Path(), bytes read through the mapping"],
     "property-based testing with generated files against a model of the file format", "sampled sizes around every limit; failing fopen, fseek, ftell and fread calls are injected")
prop("C05", "Saving an overwritten ROM changes only the bytes that were written",
     "After any sequence of writes over a ROM, the saved file is the original file (copier header and size included) with each successfully written byte replaced by its last value at its mapped, bank-wrapped offset, and every other byte unchanged. A write touching an unmapped address or anything past the end of the image is an error and never alters bytes outside the ones it names; saving to an unwritable path, or to a disk that fills up on the way, is an error that names the path and leaves no file open.",
     ["histories", "inputs"], "all histories of writes and saves, all mappings, with and without copier header",
     "no test writes a ROM", ["nsasm/rom.h", "nsasm/rom.cc"], [("private image copy, per-byte mapping, header re-emission", "nsasm/rom.cc:RomOverwriter")], ["the saved file, byte for byte", "write results"],
     "stateful property-based testing against a byte-array model, under ASan and UBSan", "sampled histories of up to 30 writes")
prop("C06", "ROM identity checking accepts exactly identical bytes",
     "A sink that verifies output against a ROM accepts a write iff every written byte equals the ROM byte its bank-wrapped address maps to. Otherwise it is an error, and when the addresses are all mapped the error names the first differing address.",
     ["inputs", "histories"], "all ROMs, addresses, lengths and byte strings",
     "no test uses the identity sink", ["nsasm/rom.cc"], [("comparison with a mapped read", "nsasm/rom.cc:RomIdentityTest::Write")], ["write results"],
     "property-based testing against a byte-wise model", "sampled; differences of one or two bits at any position")
prop("C07", "Claimed byte ranges behave as a set of bytes",
     "Claiming bytes (a run that wraps inside its bank, or an explicit range) returns true iff none of them was claimed before, and either way all of them are claimed afterwards. Membership holds for exactly the bytes claimed so far, and the list of ranges is always the canonical one: sorted, non-empty, disjoint and with touching ranges merged.",
     ["histories"], "all histories of claims",
     "the existing tests check a few hand-picked merge situations", ["nsasm/ranges.h", "nsasm/ranges.cc"], [("merge on insert", "nsasm/ranges.cc:DataRange::ClaimBytes")], ["claim results, membership, chunk list"],
     "stateful property-based testing against an interval-list model", "sampled histories of up to 60 claims clustered to touch and overlap")
prop("C08", "Range-to-value map inserts are all-or-nothing",
     "Inserting a set of bytes with a value succeeds iff none of those bytes already has a value; a refused insert changes nothing. Looking up an address returns the value of the accepted insert that covered it, and nothing for every other address; containment agrees with lookup.",
     ["histories"], "all histories of insertions and lookups",
     "one sanity test with four entries", ["nsasm/ranges.h"], [("conflict check on a copy before commit", "nsasm/ranges.h:RangeMap::Insert")], ["insert results, lookups"],
     "stateful property-based testing against a byte-to-value map", "sampled histories of up to 30 insertions")
prop("C09", "Mnemonic, suffix and directive names are a case-insensitive bijection",
     "Every mnemonic, size suffix and directive prints as its published name, different ones never print alike, and a string reads as one exactly when it equals its name up to ASCII letter case; every other string reads as nothing. The list of all mnemonics (and of all suffixes) contains each exactly once.",
     ["inputs"], "all strings, all enumerators",
     "the existing test covers the lower-case mnemonic names but not directives, near-misses or mixed case", ["nsasm/mnemonic.h", "nsasm/mnemonic.cc"], [("name tables and lookup maps", "nsasm/mnemonic.cc")], ["conversion results"],
     "enumeration of all names, case variants and one-edit neighbours plus random strings, against an independent name table", "complete for names, their case variants and one-edit neighbours; sampled otherwise")
prop("C10", "Errors keep their message and the most specific location",
     "An error prints as its formatted message, preceded by `path: `, `path:line: ` or `path:0xaddress: ` when a path is known, where path and position are the last ones set (setting one keeps the other, setting nothing changes nothing). Propagating an error through a failing step keeps message and location, adding any location the step supplies; a success propagates its value.",
     ["inputs", "histories"], "all messages and sequences of location updates",
     "no test covers error formatting or location merging", ["nsasm/error.h", "nsasm/error.cc", "nsasm/location.h"], [("location merge", "nsasm/location.h:Location::Update"), ("propagation macros", "nsasm/error.h")], ["printed errors"],
     "property-based testing against a model of path and position", "sampled")
prop("C11", "quick_dump listings reproduce the ROM bytes",
     "Run on a loadable ROM, the dump tool prints `.org` with the start address followed by `.db`, `.dw` or `.dl` lines of at most the requested number of items, which read back as exactly the requested number of little-endian values at consecutive bank-wrapped addresses, and exits 0. If any requested byte is not readable it prints an error naming the ROM and exits 1. Likewise an unreadable ROM, or arguments that are not numbers or not an address, give a message and exit status 1; no command line makes it crash.",
     ["inputs"], "all ROM files and command lines",
     "no test runs the tool", ["util/quick_dump.cc", "nsasm/rom.cc", "nsasm/memory.cc"], [("read loop and listing", "util/quick_dump.cc:main")], ["standard output and exit status"],
     "property-based testing of the program, parsing its listing back", "sampled command lines and ROM files")
prop("C12", "Multi-byte reads are little-endian over any source",
     "For any byte source, the 1-, 2- and 3-byte value at an address is the little-endian combination of the bytes the source returns from that address onward, wrapping as the source wraps; if the source reports an error, the same error is returned.",
     ["inputs"], "all sources, addresses and widths",
     "no test reads words or longs", ["nsasm/memory.h", "nsasm/memory.cc"], [("byte combination", "nsasm/memory.cc")], ["returned values"],
     "property-based testing with a generated source", "sampled")
prop("C13", "Numeric types coerce modulo their width and combine to the wider type",
     "Coercing a value to an 8-, 16- or 24-bit signed or unsigned type gives the unique value in that type's range congruent to it modulo the width; an unknown type leaves it alone. Combining two types gives the wider width, signed if either is signed, with unknown as neutral element, independent of order and grouping. Each type prints as what it is: \"byte\", \"signed word\", ..., or \"unknown\".",
     ["inputs"], "all 32-bit values and all pairs of types",
     "no test covers coercion at range boundaries or the full combination table", ["nsasm/numeric_type.h", "nsasm/address.h"], [("CastTo and type combination", "nsasm/numeric_type.h")], ["returned values and types"],
     "property-based testing against modular arithmetic; type table enumerated", "type table complete, values sampled")

NOT_APPLICABLE = {}


def main():
    try:
        import props_shim  # noqa
        props_shim.add(prop, NOT_APPLICABLE)
    except ImportError:
        pass
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    import sys
    sys.path.insert(0, os.path.join(HERE, "harness"))
    from checks import CHECKS
    checks = []
    na = []
    for p in P:
        if p["id"] in CHECKS:
            cmd = "python3 check.py %s" % p["id"]
            checks.append(dict(property=p["id"], quick_cmd=cmd, thorough_cmd=cmd + " --thorough", technique=p["technique"], level="exploration",
                               level_note=p["note"], evidence_file="evidence/%s.json" % p["id"]))
        else:
            na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")))
    m = dict(version=1, setup_cmd="python3 check.py --list", checks=checks)
    m["not_applicable"] = na
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)


if __name__ == "__main__":
    main()

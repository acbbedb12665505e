exec(open('/tmp/plant/r2.py').read().split('bug(id="identity')[0].split('bug(id="exhirom')[0])
bug(id="last-banks-as-wram", property="C02", kind="sys", src=ROM,
    needs="an address in banks $FE or $FF",
    breaks="it is refused as work RAM although the cartridge is there",
    edits=[("nsasm/rom.cc", "if (bank == 0x7e || bank == 0x7f) {", "if ((bank & 0x7f) >= 0x7e) {")],
    demo='''#include "nsasm/rom.h"
int main() {
  auto r = nsasm::SnesToROMAddress(nsasm::Address(0xff, 0x8123), nsasm::kLoRom);
  return r.ok() && *r == 0x3f8123 ? 0 : 1;
}
''')

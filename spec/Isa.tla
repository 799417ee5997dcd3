-------------------------------- MODULE Isa ---------------------------------
(***************************************************************************)
(* The instruction sets: for each processor the mnemonics, and for each    *)
(* mnemonic its addressing modes with the opcode each one has.  An opcode  *)
(* above 255 is a prefix byte followed by the opcode byte.                 *)
(* kind: mne = general encoding rule; the others are the F8's operand      *)
(* classes (see F8.tla).  flags: mask = takes a mask byte, rel = takes a    *)
(* branch displacement, imod = takes a bit number.                         *)
(***************************************************************************)
EXTENDS State

M(name, kind, flags, modes) == [name |-> T(name), kind |-> kind, flags |-> flags,
                                ops |-> [m \in {modes[i][1] : i \in DOMAIN modes} |->
                                          modes[CHOOSE i \in DOMAIN modes : modes[i][1] = m][2]]]
Table(seq) == [n \in {seq[i].name : i \in DOMAIN seq} |->
                 seq[CHOOSE i \in DOMAIN seq : seq[i].name = n /\ \A j \in DOMAIN seq : j > i => seq[j].name # n]]

Isa6502 == Table(<<
  M("adc", "mne", {}, <<<<AM_IMM8, 105>>, <<AM_BYTEADR, 101>>, <<AM_BYTEADRX, 117>>, <<AM_WORDADR, 109>>, <<AM_WORDADRX, 125>>, <<AM_WORDADRY, 121>>, <<AM_INDBYTEX, 97>>, <<AM_INDBYTEY, 113>>>>),
  M("anc", "mne", {}, <<<<AM_IMM8, 11>>>>),
  M("and", "mne", {}, <<<<AM_IMM8, 41>>, <<AM_BYTEADR, 37>>, <<AM_BYTEADRX, 53>>, <<AM_WORDADR, 45>>, <<AM_WORDADRX, 61>>, <<AM_WORDADRY, 57>>, <<AM_INDBYTEX, 33>>, <<AM_INDBYTEY, 49>>>>),
  M("ane", "mne", {}, <<<<AM_IMM8, 139>>>>),
  M("arr", "mne", {}, <<<<AM_IMM8, 107>>>>),
  M("asl", "mne", {}, <<<<AM_IMP, 10>>, <<AM_BYTEADR, 6>>, <<AM_BYTEADRX, 22>>, <<AM_WORDADR, 14>>, <<AM_WORDADRX, 30>>>>),
  M("asr", "mne", {}, <<<<AM_IMM8, 75>>>>),
  M("bcc", "mne", {}, <<<<AM_REL, 144>>>>),
  M("bcs", "mne", {}, <<<<AM_REL, 176>>>>),
  M("beq", "mne", {}, <<<<AM_REL, 240>>>>),
  M("bit", "mne", {}, <<<<AM_BYTEADR, 36>>, <<AM_WORDADR, 44>>>>),
  M("bmi", "mne", {}, <<<<AM_REL, 48>>>>),
  M("bne", "mne", {}, <<<<AM_REL, 208>>>>),
  M("bpl", "mne", {}, <<<<AM_REL, 16>>>>),
  M("brk", "mne", {}, <<<<AM_IMP, 0>>>>),
  M("bvc", "mne", {}, <<<<AM_REL, 80>>>>),
  M("bvs", "mne", {}, <<<<AM_REL, 112>>>>),
  M("clc", "mne", {}, <<<<AM_IMP, 24>>>>),
  M("cld", "mne", {}, <<<<AM_IMP, 216>>>>),
  M("cli", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("clv", "mne", {}, <<<<AM_IMP, 184>>>>),
  M("cmp", "mne", {}, <<<<AM_IMM8, 201>>, <<AM_BYTEADR, 197>>, <<AM_BYTEADRX, 213>>, <<AM_WORDADR, 205>>, <<AM_WORDADRX, 221>>, <<AM_WORDADRY, 217>>, <<AM_INDBYTEX, 193>>, <<AM_INDBYTEY, 209>>>>),
  M("cpx", "mne", {}, <<<<AM_IMM8, 224>>, <<AM_BYTEADR, 228>>, <<AM_WORDADR, 236>>>>),
  M("cpy", "mne", {}, <<<<AM_IMM8, 192>>, <<AM_BYTEADR, 196>>, <<AM_WORDADR, 204>>>>),
  M("dcp", "mne", {}, <<<<AM_BYTEADR, 199>>, <<AM_BYTEADRX, 215>>, <<AM_WORDADR, 207>>, <<AM_WORDADRX, 223>>, <<AM_WORDADRY, 219>>, <<AM_INDBYTEX, 195>>, <<AM_INDBYTEY, 211>>>>),
  M("dec", "mne", {}, <<<<AM_BYTEADR, 198>>, <<AM_BYTEADRX, 214>>, <<AM_WORDADR, 206>>, <<AM_WORDADRX, 222>>>>),
  M("dex", "mne", {}, <<<<AM_IMP, 202>>>>),
  M("dey", "mne", {}, <<<<AM_IMP, 136>>>>),
  M("eor", "mne", {}, <<<<AM_IMM8, 73>>, <<AM_BYTEADR, 69>>, <<AM_BYTEADRX, 85>>, <<AM_WORDADR, 77>>, <<AM_WORDADRX, 93>>, <<AM_WORDADRY, 89>>, <<AM_INDBYTEX, 65>>, <<AM_INDBYTEY, 81>>>>),
  M("inc", "mne", {}, <<<<AM_BYTEADR, 230>>, <<AM_BYTEADRX, 246>>, <<AM_WORDADR, 238>>, <<AM_WORDADRX, 254>>>>),
  M("inx", "mne", {}, <<<<AM_IMP, 232>>>>),
  M("iny", "mne", {}, <<<<AM_IMP, 200>>>>),
  M("isb", "mne", {}, <<<<AM_BYTEADR, 231>>, <<AM_BYTEADRX, 247>>, <<AM_WORDADR, 239>>, <<AM_WORDADRX, 255>>, <<AM_WORDADRY, 251>>, <<AM_INDBYTEX, 227>>, <<AM_INDBYTEY, 243>>>>),
  M("jmp", "mne", {}, <<<<AM_WORDADR, 76>>, <<AM_INDWORD, 108>>>>),
  M("jsr", "mne", {}, <<<<AM_WORDADR, 32>>>>),
  M("las", "mne", {}, <<<<AM_WORDADRY, 187>>>>),
  M("lax", "mne", {}, <<<<AM_BYTEADR, 167>>, <<AM_BYTEADRY, 183>>, <<AM_WORDADR, 175>>, <<AM_WORDADRY, 191>>, <<AM_INDBYTEX, 163>>, <<AM_INDBYTEY, 179>>>>),
  M("lda", "mne", {}, <<<<AM_IMM8, 169>>, <<AM_BYTEADR, 165>>, <<AM_BYTEADRX, 181>>, <<AM_WORDADR, 173>>, <<AM_WORDADRX, 189>>, <<AM_WORDADRY, 185>>, <<AM_INDBYTEX, 161>>, <<AM_INDBYTEY, 177>>>>),
  M("ldx", "mne", {}, <<<<AM_IMM8, 162>>, <<AM_BYTEADR, 166>>, <<AM_BYTEADRY, 182>>, <<AM_WORDADR, 174>>, <<AM_WORDADRY, 190>>>>),
  M("ldy", "mne", {}, <<<<AM_IMM8, 160>>, <<AM_BYTEADR, 164>>, <<AM_BYTEADRX, 180>>, <<AM_WORDADR, 172>>, <<AM_WORDADRX, 188>>>>),
  M("lsr", "mne", {}, <<<<AM_IMP, 74>>, <<AM_BYTEADR, 70>>, <<AM_BYTEADRX, 86>>, <<AM_WORDADR, 78>>, <<AM_WORDADRX, 94>>>>),
  M("lxa", "mne", {}, <<<<AM_IMM8, 171>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 234>>, <<AM_IMM8, 128>>, <<AM_BYTEADR, 4>>, <<AM_BYTEADRX, 20>>, <<AM_WORDADR, 12>>, <<AM_WORDADRX, 28>>>>),
  M("ora", "mne", {}, <<<<AM_IMM8, 9>>, <<AM_BYTEADR, 5>>, <<AM_BYTEADRX, 21>>, <<AM_WORDADR, 13>>, <<AM_WORDADRX, 29>>, <<AM_WORDADRY, 25>>, <<AM_INDBYTEX, 1>>, <<AM_INDBYTEY, 17>>>>),
  M("pha", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("php", "mne", {}, <<<<AM_IMP, 8>>>>),
  M("pla", "mne", {}, <<<<AM_IMP, 104>>>>),
  M("plp", "mne", {}, <<<<AM_IMP, 40>>>>),
  M("rla", "mne", {}, <<<<AM_BYTEADR, 39>>, <<AM_BYTEADRX, 55>>, <<AM_WORDADR, 47>>, <<AM_WORDADRX, 63>>, <<AM_WORDADRY, 59>>, <<AM_INDBYTEX, 35>>, <<AM_INDBYTEY, 51>>>>),
  M("rol", "mne", {}, <<<<AM_IMP, 42>>, <<AM_BYTEADR, 38>>, <<AM_BYTEADRX, 54>>, <<AM_WORDADR, 46>>, <<AM_WORDADRX, 62>>>>),
  M("ror", "mne", {}, <<<<AM_IMP, 106>>, <<AM_BYTEADR, 102>>, <<AM_BYTEADRX, 118>>, <<AM_WORDADR, 110>>, <<AM_WORDADRX, 126>>>>),
  M("rra", "mne", {}, <<<<AM_BYTEADR, 103>>, <<AM_BYTEADRX, 119>>, <<AM_WORDADR, 111>>, <<AM_WORDADRX, 127>>, <<AM_WORDADRY, 123>>, <<AM_INDBYTEX, 99>>, <<AM_INDBYTEY, 115>>>>),
  M("rti", "mne", {}, <<<<AM_IMP, 64>>>>),
  M("rts", "mne", {}, <<<<AM_IMP, 96>>>>),
  M("sax", "mne", {}, <<<<AM_BYTEADR, 135>>, <<AM_BYTEADRY, 151>>, <<AM_WORDADR, 143>>, <<AM_INDBYTEX, 131>>>>),
  M("sbc", "mne", {}, <<<<AM_IMM8, 233>>, <<AM_BYTEADR, 229>>, <<AM_BYTEADRX, 245>>, <<AM_WORDADR, 237>>, <<AM_WORDADRX, 253>>, <<AM_WORDADRY, 249>>, <<AM_INDBYTEX, 225>>, <<AM_INDBYTEY, 241>>>>),
  M("sbx", "mne", {}, <<<<AM_IMM8, 203>>>>),
  M("sec", "mne", {}, <<<<AM_IMP, 56>>>>),
  M("sed", "mne", {}, <<<<AM_IMP, 248>>>>),
  M("sei", "mne", {}, <<<<AM_IMP, 120>>>>),
  M("sha", "mne", {}, <<<<AM_WORDADRY, 159>>, <<AM_INDBYTEY, 147>>>>),
  M("shs", "mne", {}, <<<<AM_WORDADRY, 155>>>>),
  M("shx", "mne", {}, <<<<AM_WORDADRY, 158>>>>),
  M("shy", "mne", {}, <<<<AM_WORDADRX, 156>>>>),
  M("slo", "mne", {}, <<<<AM_BYTEADR, 7>>, <<AM_BYTEADRX, 23>>, <<AM_WORDADR, 15>>, <<AM_WORDADRX, 31>>, <<AM_WORDADRY, 27>>, <<AM_INDBYTEX, 3>>, <<AM_INDBYTEY, 19>>>>),
  M("sre", "mne", {}, <<<<AM_BYTEADR, 71>>, <<AM_BYTEADRX, 87>>, <<AM_WORDADR, 79>>, <<AM_WORDADRX, 95>>, <<AM_WORDADRY, 91>>, <<AM_INDBYTEX, 67>>, <<AM_INDBYTEY, 83>>>>),
  M("sta", "mne", {}, <<<<AM_BYTEADR, 133>>, <<AM_BYTEADRX, 149>>, <<AM_WORDADR, 141>>, <<AM_WORDADRX, 157>>, <<AM_WORDADRY, 153>>, <<AM_INDBYTEX, 129>>, <<AM_INDBYTEY, 145>>>>),
  M("stx", "mne", {}, <<<<AM_BYTEADR, 134>>, <<AM_BYTEADRY, 150>>, <<AM_WORDADR, 142>>>>),
  M("sty", "mne", {}, <<<<AM_BYTEADR, 132>>, <<AM_BYTEADRX, 148>>, <<AM_WORDADR, 140>>>>),
  M("tax", "mne", {}, <<<<AM_IMP, 170>>>>),
  M("tay", "mne", {}, <<<<AM_IMP, 168>>>>),
  M("tsx", "mne", {}, <<<<AM_IMP, 186>>>>),
  M("txa", "mne", {}, <<<<AM_IMP, 138>>>>),
  M("txs", "mne", {}, <<<<AM_IMP, 154>>>>),
  M("tya", "mne", {}, <<<<AM_IMP, 152>>>>) >>)

Isa65c02 == Table(<<
  M("adc", "mne", {}, <<<<AM_IMM8, 105>>, <<AM_BYTEADR, 101>>, <<AM_BYTEADRX, 117>>, <<AM_WORDADR, 109>>, <<AM_WORDADRX, 125>>, <<AM_WORDADRY, 121>>, <<AM_INDBYTEX, 97>>, <<AM_INDBYTEY, 113>>, <<AM_INDBYTE, 114>>>>),
  M("and", "mne", {}, <<<<AM_IMM8, 41>>, <<AM_BYTEADR, 37>>, <<AM_BYTEADRX, 53>>, <<AM_WORDADR, 45>>, <<AM_WORDADRX, 61>>, <<AM_WORDADRY, 57>>, <<AM_INDBYTEX, 33>>, <<AM_INDBYTEY, 49>>, <<AM_INDBYTE, 50>>>>),
  M("asl", "mne", {}, <<<<AM_IMP, 10>>, <<AM_BYTEADR, 6>>, <<AM_BYTEADRX, 22>>, <<AM_WORDADR, 14>>, <<AM_WORDADRX, 30>>>>),
  M("bbr0", "mne", {}, <<<<AM_BYTEREL, 15>>>>),
  M("bbr1", "mne", {}, <<<<AM_BYTEREL, 31>>>>),
  M("bbr2", "mne", {}, <<<<AM_BYTEREL, 47>>>>),
  M("bbr3", "mne", {}, <<<<AM_BYTEREL, 63>>>>),
  M("bbr4", "mne", {}, <<<<AM_BYTEREL, 79>>>>),
  M("bbr5", "mne", {}, <<<<AM_BYTEREL, 95>>>>),
  M("bbr6", "mne", {}, <<<<AM_BYTEREL, 111>>>>),
  M("bbr7", "mne", {}, <<<<AM_BYTEREL, 127>>>>),
  M("bbs0", "mne", {}, <<<<AM_BYTEREL, 143>>>>),
  M("bbs1", "mne", {}, <<<<AM_BYTEREL, 159>>>>),
  M("bbs2", "mne", {}, <<<<AM_BYTEREL, 175>>>>),
  M("bbs3", "mne", {}, <<<<AM_BYTEREL, 191>>>>),
  M("bbs4", "mne", {}, <<<<AM_BYTEREL, 207>>>>),
  M("bbs5", "mne", {}, <<<<AM_BYTEREL, 223>>>>),
  M("bbs6", "mne", {}, <<<<AM_BYTEREL, 239>>>>),
  M("bbs7", "mne", {}, <<<<AM_BYTEREL, 255>>>>),
  M("bcc", "mne", {}, <<<<AM_REL, 144>>>>),
  M("bcs", "mne", {}, <<<<AM_REL, 176>>>>),
  M("beq", "mne", {}, <<<<AM_REL, 240>>>>),
  M("bit", "mne", {}, <<<<AM_IMM8, 137>>, <<AM_BYTEADR, 36>>, <<AM_BYTEADRX, 52>>, <<AM_WORDADR, 44>>, <<AM_WORDADRX, 60>>>>),
  M("bmi", "mne", {}, <<<<AM_REL, 48>>>>),
  M("bne", "mne", {}, <<<<AM_REL, 208>>>>),
  M("bpl", "mne", {}, <<<<AM_REL, 16>>>>),
  M("bra", "mne", {}, <<<<AM_REL, 128>>>>),
  M("brk", "mne", {}, <<<<AM_IMP, 0>>>>),
  M("bvc", "mne", {}, <<<<AM_REL, 80>>>>),
  M("bvs", "mne", {}, <<<<AM_REL, 112>>>>),
  M("clc", "mne", {}, <<<<AM_IMP, 24>>>>),
  M("cld", "mne", {}, <<<<AM_IMP, 216>>>>),
  M("cli", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("clv", "mne", {}, <<<<AM_IMP, 184>>>>),
  M("cmp", "mne", {}, <<<<AM_IMM8, 201>>, <<AM_BYTEADR, 197>>, <<AM_BYTEADRX, 213>>, <<AM_WORDADR, 205>>, <<AM_WORDADRX, 221>>, <<AM_WORDADRY, 217>>, <<AM_INDBYTEX, 193>>, <<AM_INDBYTEY, 209>>, <<AM_INDBYTE, 210>>>>),
  M("cpx", "mne", {}, <<<<AM_IMM8, 224>>, <<AM_BYTEADR, 228>>, <<AM_WORDADR, 236>>>>),
  M("cpy", "mne", {}, <<<<AM_IMM8, 192>>, <<AM_BYTEADR, 196>>, <<AM_WORDADR, 204>>>>),
  M("dec", "mne", {}, <<<<AM_BYTEADR, 198>>, <<AM_BYTEADRX, 214>>, <<AM_WORDADR, 206>>, <<AM_WORDADRX, 222>>>>),
  M("dea", "mne", {}, <<<<AM_IMP, 58>>>>),
  M("dex", "mne", {}, <<<<AM_IMP, 202>>>>),
  M("dey", "mne", {}, <<<<AM_IMP, 136>>>>),
  M("eor", "mne", {}, <<<<AM_IMM8, 73>>, <<AM_BYTEADR, 69>>, <<AM_BYTEADRX, 85>>, <<AM_WORDADR, 77>>, <<AM_WORDADRX, 93>>, <<AM_WORDADRY, 89>>, <<AM_INDBYTEX, 65>>, <<AM_INDBYTEY, 81>>, <<AM_INDBYTE, 82>>>>),
  M("ina", "mne", {}, <<<<AM_IMP, 26>>>>),
  M("inc", "mne", {}, <<<<AM_BYTEADR, 230>>, <<AM_BYTEADRX, 246>>, <<AM_WORDADR, 238>>, <<AM_WORDADRX, 254>>>>),
  M("inx", "mne", {}, <<<<AM_IMP, 232>>>>),
  M("iny", "mne", {}, <<<<AM_IMP, 200>>>>),
  M("jmp", "mne", {}, <<<<AM_WORDADR, 76>>, <<AM_INDBYTEX, 66>>, <<AM_INDWORD, 108>>, <<AM_INDWORDX, 124>>, <<AM_INDBYTE, 66>>>>),
  M("jsr", "mne", {}, <<<<AM_WORDADR, 32>>>>),
  M("lda", "mne", {}, <<<<AM_IMM8, 169>>, <<AM_BYTEADR, 165>>, <<AM_BYTEADRX, 181>>, <<AM_WORDADR, 173>>, <<AM_WORDADRX, 189>>, <<AM_WORDADRY, 185>>, <<AM_INDBYTEX, 161>>, <<AM_INDBYTEY, 177>>, <<AM_INDBYTE, 178>>>>),
  M("ldx", "mne", {}, <<<<AM_IMM8, 162>>, <<AM_BYTEADR, 166>>, <<AM_BYTEADRY, 182>>, <<AM_WORDADR, 174>>, <<AM_WORDADRY, 190>>>>),
  M("ldy", "mne", {}, <<<<AM_IMM8, 160>>, <<AM_BYTEADR, 164>>, <<AM_BYTEADRX, 180>>, <<AM_WORDADR, 172>>, <<AM_WORDADRX, 188>>>>),
  M("lsr", "mne", {}, <<<<AM_IMP, 74>>, <<AM_BYTEADR, 70>>, <<AM_BYTEADRX, 86>>, <<AM_WORDADR, 78>>, <<AM_WORDADRX, 94>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 234>>>>),
  M("ora", "mne", {}, <<<<AM_IMM8, 9>>, <<AM_BYTEADR, 5>>, <<AM_BYTEADRX, 21>>, <<AM_WORDADR, 13>>, <<AM_WORDADRX, 29>>, <<AM_WORDADRY, 25>>, <<AM_INDBYTEX, 1>>, <<AM_INDBYTEY, 17>>, <<AM_INDBYTE, 18>>>>),
  M("pha", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("phx", "mne", {}, <<<<AM_IMP, 218>>>>),
  M("phy", "mne", {}, <<<<AM_IMP, 90>>>>),
  M("php", "mne", {}, <<<<AM_IMP, 8>>>>),
  M("pla", "mne", {}, <<<<AM_IMP, 104>>>>),
  M("plp", "mne", {}, <<<<AM_IMP, 40>>>>),
  M("plx", "mne", {}, <<<<AM_IMP, 250>>>>),
  M("ply", "mne", {}, <<<<AM_IMP, 122>>>>),
  M("rmb0", "mne", {}, <<<<AM_BYTEADR, 7>>>>),
  M("rmb1", "mne", {}, <<<<AM_BYTEADR, 23>>>>),
  M("rmb2", "mne", {}, <<<<AM_BYTEADR, 39>>>>),
  M("rmb3", "mne", {}, <<<<AM_BYTEADR, 55>>>>),
  M("rmb4", "mne", {}, <<<<AM_BYTEADR, 71>>>>),
  M("rmb5", "mne", {}, <<<<AM_BYTEADR, 87>>>>),
  M("rmb6", "mne", {}, <<<<AM_BYTEADR, 103>>>>),
  M("rmb7", "mne", {}, <<<<AM_BYTEADR, 119>>>>),
  M("rol", "mne", {}, <<<<AM_IMP, 42>>, <<AM_BYTEADR, 38>>, <<AM_BYTEADRX, 54>>, <<AM_WORDADR, 46>>, <<AM_WORDADRX, 62>>>>),
  M("ror", "mne", {}, <<<<AM_IMP, 106>>, <<AM_BYTEADR, 102>>, <<AM_BYTEADRX, 118>>, <<AM_WORDADR, 110>>, <<AM_WORDADRX, 126>>>>),
  M("rti", "mne", {}, <<<<AM_IMP, 64>>>>),
  M("rts", "mne", {}, <<<<AM_IMP, 96>>>>),
  M("sbc", "mne", {}, <<<<AM_IMM8, 233>>, <<AM_BYTEADR, 229>>, <<AM_BYTEADRX, 245>>, <<AM_WORDADR, 237>>, <<AM_WORDADRX, 253>>, <<AM_WORDADRY, 249>>, <<AM_INDBYTEX, 225>>, <<AM_INDBYTEY, 241>>, <<AM_INDBYTE, 242>>>>),
  M("sec", "mne", {}, <<<<AM_IMP, 56>>>>),
  M("sed", "mne", {}, <<<<AM_IMP, 248>>>>),
  M("sei", "mne", {}, <<<<AM_IMP, 120>>>>),
  M("smb0", "mne", {}, <<<<AM_BYTEADR, 135>>>>),
  M("smb1", "mne", {}, <<<<AM_BYTEADR, 151>>>>),
  M("smb2", "mne", {}, <<<<AM_BYTEADR, 167>>>>),
  M("smb3", "mne", {}, <<<<AM_BYTEADR, 183>>>>),
  M("smb4", "mne", {}, <<<<AM_BYTEADR, 199>>>>),
  M("smb5", "mne", {}, <<<<AM_BYTEADR, 215>>>>),
  M("smb6", "mne", {}, <<<<AM_BYTEADR, 231>>>>),
  M("smb7", "mne", {}, <<<<AM_BYTEADR, 247>>>>),
  M("sta", "mne", {}, <<<<AM_BYTEADR, 133>>, <<AM_BYTEADRX, 149>>, <<AM_WORDADR, 141>>, <<AM_WORDADRX, 157>>, <<AM_WORDADRY, 153>>, <<AM_INDBYTEX, 129>>, <<AM_INDBYTEY, 145>>, <<AM_INDBYTE, 146>>>>),
  M("stx", "mne", {}, <<<<AM_BYTEADR, 134>>, <<AM_BYTEADRY, 150>>, <<AM_WORDADR, 142>>>>),
  M("stp", "mne", {}, <<<<AM_IMP, 219>>>>),
  M("sty", "mne", {}, <<<<AM_BYTEADR, 132>>, <<AM_BYTEADRX, 148>>, <<AM_WORDADR, 140>>>>),
  M("stz", "mne", {}, <<<<AM_BYTEADR, 100>>, <<AM_BYTEADRX, 116>>, <<AM_WORDADR, 156>>, <<AM_WORDADRX, 158>>>>),
  M("tax", "mne", {}, <<<<AM_IMP, 170>>>>),
  M("tay", "mne", {}, <<<<AM_IMP, 168>>>>),
  M("trb", "mne", {}, <<<<AM_BYTEADR, 20>>, <<AM_WORDADR, 28>>>>),
  M("tsb", "mne", {}, <<<<AM_BYTEADR, 4>>, <<AM_WORDADR, 12>>>>),
  M("tsx", "mne", {}, <<<<AM_IMP, 186>>>>),
  M("txa", "mne", {}, <<<<AM_IMP, 138>>>>),
  M("txs", "mne", {}, <<<<AM_IMP, 154>>>>),
  M("tya", "mne", {}, <<<<AM_IMP, 152>>>>),
  M("wai", "mne", {}, <<<<AM_IMP, 203>>>>) >>)

Isa6803 == Table(<<
  M("aba", "mne", {}, <<<<AM_IMP, 27>>>>),
  M("abx", "mne", {}, <<<<AM_IMP, 58>>>>),
  M("adca", "mne", {}, <<<<AM_IMM8, 137>>, <<AM_BYTEADR, 153>>, <<AM_BYTEADRX, 169>>, <<AM_WORDADR, 185>>>>),
  M("adcb", "mne", {}, <<<<AM_IMM8, 201>>, <<AM_BYTEADR, 217>>, <<AM_BYTEADRX, 233>>, <<AM_WORDADR, 249>>>>),
  M("adda", "mne", {}, <<<<AM_IMM8, 139>>, <<AM_BYTEADR, 155>>, <<AM_BYTEADRX, 171>>, <<AM_WORDADR, 187>>>>),
  M("addb", "mne", {}, <<<<AM_IMM8, 203>>, <<AM_BYTEADR, 219>>, <<AM_BYTEADRX, 235>>, <<AM_WORDADR, 251>>>>),
  M("addd", "mne", {}, <<<<AM_IMM16, 195>>, <<AM_BYTEADR, 211>>, <<AM_BYTEADRX, 227>>, <<AM_WORDADR, 243>>>>),
  M("anda", "mne", {}, <<<<AM_IMM8, 132>>, <<AM_BYTEADR, 148>>, <<AM_BYTEADRX, 164>>, <<AM_WORDADR, 180>>>>),
  M("andb", "mne", {}, <<<<AM_IMM8, 196>>, <<AM_BYTEADR, 212>>, <<AM_BYTEADRX, 228>>, <<AM_WORDADR, 244>>>>),
  M("bita", "mne", {}, <<<<AM_IMM8, 133>>, <<AM_BYTEADR, 149>>, <<AM_BYTEADRX, 165>>, <<AM_WORDADR, 181>>>>),
  M("bitb", "mne", {}, <<<<AM_IMM8, 197>>, <<AM_BYTEADR, 213>>, <<AM_BYTEADRX, 229>>, <<AM_WORDADR, 245>>>>),
  M("bra", "mne", {}, <<<<AM_REL, 32>>>>),
  M("brn", "mne", {}, <<<<AM_REL, 33>>>>),
  M("bcc", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bhs", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bcs", "mne", {}, <<<<AM_REL, 37>>>>),
  M("blo", "mne", {}, <<<<AM_REL, 37>>>>),
  M("beq", "mne", {}, <<<<AM_REL, 39>>>>),
  M("bge", "mne", {}, <<<<AM_REL, 44>>>>),
  M("bgt", "mne", {}, <<<<AM_REL, 46>>>>),
  M("bhi", "mne", {}, <<<<AM_REL, 34>>>>),
  M("ble", "mne", {}, <<<<AM_REL, 47>>>>),
  M("bls", "mne", {}, <<<<AM_REL, 35>>>>),
  M("blt", "mne", {}, <<<<AM_REL, 45>>>>),
  M("bmi", "mne", {}, <<<<AM_REL, 43>>>>),
  M("bne", "mne", {}, <<<<AM_REL, 38>>>>),
  M("bvc", "mne", {}, <<<<AM_REL, 40>>>>),
  M("bvs", "mne", {}, <<<<AM_REL, 41>>>>),
  M("bpl", "mne", {}, <<<<AM_REL, 42>>>>),
  M("bsr", "mne", {}, <<<<AM_REL, 141>>>>),
  M("clc", "mne", {}, <<<<AM_IMP, 12>>>>),
  M("cli", "mne", {}, <<<<AM_IMP, 14>>>>),
  M("clv", "mne", {}, <<<<AM_IMP, 10>>>>),
  M("sec", "mne", {}, <<<<AM_IMP, 13>>>>),
  M("sei", "mne", {}, <<<<AM_IMP, 15>>>>),
  M("sev", "mne", {}, <<<<AM_IMP, 11>>>>),
  M("tap", "mne", {}, <<<<AM_IMP, 6>>>>),
  M("tpa", "mne", {}, <<<<AM_IMP, 7>>>>),
  M("clr", "mne", {}, <<<<AM_BYTEADRX, 111>>, <<AM_WORDADR, 127>>>>),
  M("clra", "mne", {}, <<<<AM_IMP, 79>>>>),
  M("clrb", "mne", {}, <<<<AM_IMP, 95>>>>),
  M("cmpa", "mne", {}, <<<<AM_IMM8, 129>>, <<AM_BYTEADR, 145>>, <<AM_BYTEADRX, 161>>, <<AM_WORDADR, 177>>>>),
  M("cmpb", "mne", {}, <<<<AM_IMM8, 193>>, <<AM_BYTEADR, 209>>, <<AM_BYTEADRX, 225>>, <<AM_WORDADR, 241>>>>),
  M("cba", "mne", {}, <<<<AM_IMP, 17>>>>),
  M("com", "mne", {}, <<<<AM_BYTEADRX, 99>>, <<AM_WORDADR, 115>>>>),
  M("coma", "mne", {}, <<<<AM_IMP, 67>>>>),
  M("comb", "mne", {}, <<<<AM_IMP, 83>>>>),
  M("neg", "mne", {}, <<<<AM_BYTEADRX, 96>>, <<AM_WORDADR, 112>>>>),
  M("nega", "mne", {}, <<<<AM_IMP, 64>>>>),
  M("negb", "mne", {}, <<<<AM_IMP, 80>>>>),
  M("daa", "mne", {}, <<<<AM_IMP, 25>>>>),
  M("dec", "mne", {}, <<<<AM_BYTEADRX, 106>>, <<AM_WORDADR, 122>>>>),
  M("deca", "mne", {}, <<<<AM_IMP, 74>>>>),
  M("decb", "mne", {}, <<<<AM_IMP, 90>>>>),
  M("eora", "mne", {}, <<<<AM_IMM8, 136>>, <<AM_BYTEADR, 152>>, <<AM_BYTEADRX, 168>>, <<AM_WORDADR, 184>>>>),
  M("eorb", "mne", {}, <<<<AM_IMM8, 200>>, <<AM_BYTEADR, 216>>, <<AM_BYTEADRX, 232>>, <<AM_WORDADR, 248>>>>),
  M("inc", "mne", {}, <<<<AM_BYTEADRX, 108>>, <<AM_WORDADR, 124>>>>),
  M("inca", "mne", {}, <<<<AM_IMP, 76>>>>),
  M("incb", "mne", {}, <<<<AM_IMP, 92>>>>),
  M("jmp", "mne", {}, <<<<AM_BYTEADRX, 110>>, <<AM_WORDADR, 126>>>>),
  M("jsr", "mne", {}, <<<<AM_BYTEADR, 157>>, <<AM_BYTEADRX, 173>>, <<AM_WORDADR, 189>>>>),
  M("ldaa", "mne", {}, <<<<AM_IMM8, 134>>, <<AM_BYTEADR, 150>>, <<AM_BYTEADRX, 166>>, <<AM_WORDADR, 182>>>>),
  M("ldab", "mne", {}, <<<<AM_IMM8, 198>>, <<AM_BYTEADR, 214>>, <<AM_BYTEADRX, 230>>, <<AM_WORDADR, 246>>>>),
  M("ldd", "mne", {}, <<<<AM_IMM16, 204>>, <<AM_BYTEADR, 220>>, <<AM_BYTEADRX, 236>>, <<AM_WORDADR, 252>>>>),
  M("mul", "mne", {}, <<<<AM_IMP, 61>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 1>>>>),
  M("oraa", "mne", {}, <<<<AM_IMM8, 138>>, <<AM_BYTEADR, 154>>, <<AM_BYTEADRX, 170>>, <<AM_WORDADR, 186>>>>),
  M("orab", "mne", {}, <<<<AM_IMM8, 202>>, <<AM_BYTEADR, 218>>, <<AM_BYTEADRX, 234>>, <<AM_WORDADR, 250>>>>),
  M("psha", "mne", {}, <<<<AM_IMP, 54>>>>),
  M("pshb", "mne", {}, <<<<AM_IMP, 55>>>>),
  M("pshx", "mne", {}, <<<<AM_IMP, 60>>>>),
  M("pulx", "mne", {}, <<<<AM_IMP, 56>>>>),
  M("pula", "mne", {}, <<<<AM_IMP, 50>>>>),
  M("pulb", "mne", {}, <<<<AM_IMP, 51>>>>),
  M("rol", "mne", {}, <<<<AM_BYTEADRX, 105>>, <<AM_WORDADR, 121>>>>),
  M("rola", "mne", {}, <<<<AM_IMP, 73>>>>),
  M("rolb", "mne", {}, <<<<AM_IMP, 89>>>>),
  M("ror", "mne", {}, <<<<AM_BYTEADRX, 102>>, <<AM_WORDADR, 118>>>>),
  M("rora", "mne", {}, <<<<AM_IMP, 70>>>>),
  M("rorb", "mne", {}, <<<<AM_IMP, 86>>>>),
  M("rti", "mne", {}, <<<<AM_IMP, 59>>>>),
  M("rts", "mne", {}, <<<<AM_IMP, 57>>>>),
  M("swi", "mne", {}, <<<<AM_IMP, 63>>>>),
  M("wai", "mne", {}, <<<<AM_IMP, 62>>>>),
  M("asl", "mne", {}, <<<<AM_BYTEADRX, 104>>, <<AM_WORDADR, 120>>>>),
  M("lsl", "mne", {}, <<<<AM_BYTEADRX, 104>>, <<AM_WORDADR, 120>>>>),
  M("asla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("aslb", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("asld", "mne", {}, <<<<AM_IMP, 5>>>>),
  M("lsla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("lslb", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("lsld", "mne", {}, <<<<AM_IMP, 5>>>>),
  M("asr", "mne", {}, <<<<AM_BYTEADRX, 103>>, <<AM_WORDADR, 119>>>>),
  M("asra", "mne", {}, <<<<AM_IMP, 71>>>>),
  M("asrb", "mne", {}, <<<<AM_IMP, 87>>>>),
  M("cpx", "mne", {}, <<<<AM_IMM16, 140>>, <<AM_BYTEADR, 156>>, <<AM_BYTEADRX, 172>>, <<AM_WORDADR, 188>>>>),
  M("dex", "mne", {}, <<<<AM_IMP, 9>>>>),
  M("des", "mne", {}, <<<<AM_IMP, 52>>>>),
  M("inx", "mne", {}, <<<<AM_IMP, 8>>>>),
  M("ins", "mne", {}, <<<<AM_IMP, 49>>>>),
  M("ldx", "mne", {}, <<<<AM_IMM16, 206>>, <<AM_BYTEADR, 222>>, <<AM_BYTEADRX, 238>>, <<AM_WORDADR, 254>>>>),
  M("lds", "mne", {}, <<<<AM_IMM16, 142>>, <<AM_BYTEADR, 158>>, <<AM_BYTEADRX, 174>>, <<AM_WORDADR, 190>>>>),
  M("lsr", "mne", {}, <<<<AM_BYTEADRX, 100>>, <<AM_WORDADR, 116>>>>),
  M("lsra", "mne", {}, <<<<AM_IMP, 68>>>>),
  M("lsrb", "mne", {}, <<<<AM_IMP, 84>>>>),
  M("lsrd", "mne", {}, <<<<AM_IMP, 4>>>>),
  M("staa", "mne", {}, <<<<AM_BYTEADR, 151>>, <<AM_BYTEADRX, 167>>, <<AM_WORDADR, 183>>>>),
  M("stab", "mne", {}, <<<<AM_BYTEADR, 215>>, <<AM_BYTEADRX, 231>>, <<AM_WORDADR, 247>>>>),
  M("std", "mne", {}, <<<<AM_BYTEADR, 221>>, <<AM_BYTEADRX, 237>>, <<AM_WORDADR, 253>>>>),
  M("sts", "mne", {}, <<<<AM_BYTEADR, 159>>, <<AM_BYTEADRX, 175>>, <<AM_WORDADR, 191>>>>),
  M("stx", "mne", {}, <<<<AM_BYTEADR, 223>>, <<AM_BYTEADRX, 239>>, <<AM_WORDADR, 255>>>>),
  M("suba", "mne", {}, <<<<AM_IMM8, 128>>, <<AM_BYTEADR, 144>>, <<AM_BYTEADRX, 160>>, <<AM_WORDADR, 176>>>>),
  M("subb", "mne", {}, <<<<AM_IMM8, 192>>, <<AM_BYTEADR, 208>>, <<AM_BYTEADRX, 224>>, <<AM_WORDADR, 240>>>>),
  M("subd", "mne", {}, <<<<AM_IMM16, 131>>, <<AM_BYTEADR, 147>>, <<AM_BYTEADRX, 163>>, <<AM_WORDADR, 179>>>>),
  M("sba", "mne", {}, <<<<AM_IMP, 16>>>>),
  M("sbca", "mne", {}, <<<<AM_IMM8, 130>>, <<AM_BYTEADR, 146>>, <<AM_BYTEADRX, 162>>, <<AM_WORDADR, 178>>>>),
  M("sbcb", "mne", {}, <<<<AM_IMM8, 194>>, <<AM_BYTEADR, 210>>, <<AM_BYTEADRX, 226>>, <<AM_WORDADR, 242>>>>),
  M("tab", "mne", {}, <<<<AM_IMP, 22>>>>),
  M("tba", "mne", {}, <<<<AM_IMP, 23>>>>),
  M("tst", "mne", {}, <<<<AM_BYTEADRX, 109>>, <<AM_WORDADR, 125>>>>),
  M("tsta", "mne", {}, <<<<AM_IMP, 77>>>>),
  M("tstb", "mne", {}, <<<<AM_IMP, 93>>>>),
  M("tsx", "mne", {}, <<<<AM_IMP, 48>>>>),
  M("txs", "mne", {}, <<<<AM_IMP, 53>>>>) >>)

IsaHD6303 == Table(<<
  M("slp", "mne", {}, <<<<AM_IMP, 26>>>>),
  M("xgdx", "mne", {}, <<<<AM_IMP, 24>>>>),
  M("aim", "mne", {}, <<<<AM_BYTEADR, 113>>, <<AM_BYTEADRX, 97>>>>),
  M("oim", "mne", {}, <<<<AM_BYTEADR, 114>>, <<AM_BYTEADRX, 98>>>>),
  M("eim", "mne", {}, <<<<AM_BYTEADR, 117>>, <<AM_BYTEADRX, 101>>>>),
  M("tim", "mne", {}, <<<<AM_BYTEADR, 123>>, <<AM_BYTEADRX, 107>>>>) >>)

Isa68705 == Table(<<
  M("adc", "mne", {}, <<<<AM_IMM8, 169>>, <<AM_BYTEADR, 185>>, <<AM_BYTEADRX, 233>>, <<AM_WORDADR, 201>>, <<AM_WORDADRX, 217>>, <<AM_0X, 249>>>>),
  M("add", "mne", {}, <<<<AM_IMM8, 171>>, <<AM_BYTEADR, 187>>, <<AM_BYTEADRX, 235>>, <<AM_WORDADR, 203>>, <<AM_WORDADRX, 219>>, <<AM_0X, 251>>>>),
  M("and", "mne", {}, <<<<AM_IMM8, 164>>, <<AM_BYTEADR, 180>>, <<AM_BYTEADRX, 228>>, <<AM_WORDADR, 196>>, <<AM_WORDADRX, 212>>, <<AM_0X, 244>>>>),
  M("asl", "mne", {}, <<<<AM_IMP, 72>>, <<AM_BYTEADR, 56>>, <<AM_BYTEADRX, 104>>, <<AM_0X, 120>>>>),
  M("asla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("aslx", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("asr", "mne", {}, <<<<AM_IMP, 71>>, <<AM_BYTEADR, 55>>, <<AM_BYTEADRX, 103>>, <<AM_0X, 119>>>>),
  M("asra", "mne", {}, <<<<AM_IMP, 71>>>>),
  M("asrx", "mne", {}, <<<<AM_IMP, 87>>>>),
  M("bcc", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bclr", "mne", {"imod"}, <<<<AM_BITMOD, 17>>>>),
  M("bcs", "mne", {}, <<<<AM_REL, 37>>>>),
  M("beq", "mne", {}, <<<<AM_REL, 39>>>>),
  M("bhcc", "mne", {}, <<<<AM_REL, 40>>>>),
  M("bhcs", "mne", {}, <<<<AM_REL, 41>>>>),
  M("bhi", "mne", {}, <<<<AM_REL, 34>>>>),
  M("bhs", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bih", "mne", {}, <<<<AM_REL, 47>>>>),
  M("bil", "mne", {}, <<<<AM_REL, 46>>>>),
  M("bit", "mne", {}, <<<<AM_IMM8, 165>>, <<AM_BYTEADR, 181>>, <<AM_BYTEADRX, 229>>, <<AM_WORDADR, 197>>, <<AM_WORDADRX, 213>>, <<AM_0X, 245>>>>),
  M("blo", "mne", {}, <<<<AM_REL, 37>>>>),
  M("bls", "mne", {}, <<<<AM_REL, 35>>>>),
  M("bmc", "mne", {}, <<<<AM_REL, 44>>>>),
  M("bmi", "mne", {}, <<<<AM_REL, 43>>>>),
  M("bms", "mne", {}, <<<<AM_REL, 45>>>>),
  M("bne", "mne", {}, <<<<AM_REL, 38>>>>),
  M("bpl", "mne", {}, <<<<AM_REL, 42>>>>),
  M("bra", "mne", {}, <<<<AM_REL, 32>>>>),
  M("brn", "mne", {}, <<<<AM_REL, 33>>>>),
  M("brclr", "mne", {"imod", "rel"}, <<<<AM_BITBRAMOD, 1>>>>),
  M("brset", "mne", {"imod", "rel"}, <<<<AM_BITBRAMOD, 0>>>>),
  M("bset", "mne", {"imod"}, <<<<AM_BITMOD, 16>>>>),
  M("bsr", "mne", {}, <<<<AM_REL, 173>>>>),
  M("clc", "mne", {}, <<<<AM_IMP, 152>>>>),
  M("cli", "mne", {}, <<<<AM_IMP, 154>>>>),
  M("clr", "mne", {}, <<<<AM_IMP, 79>>, <<AM_BYTEADR, 63>>, <<AM_BYTEADRX, 111>>, <<AM_0X, 127>>>>),
  M("clra", "mne", {}, <<<<AM_IMP, 79>>>>),
  M("clrx", "mne", {}, <<<<AM_IMP, 95>>>>),
  M("cmp", "mne", {}, <<<<AM_IMM8, 161>>, <<AM_BYTEADR, 177>>, <<AM_BYTEADRX, 225>>, <<AM_WORDADR, 193>>, <<AM_WORDADRX, 209>>, <<AM_0X, 241>>>>),
  M("com", "mne", {}, <<<<AM_IMP, 67>>, <<AM_BYTEADR, 51>>, <<AM_BYTEADRX, 99>>, <<AM_0X, 115>>>>),
  M("coma", "mne", {}, <<<<AM_IMP, 67>>>>),
  M("comx", "mne", {}, <<<<AM_IMP, 83>>>>),
  M("cpx", "mne", {}, <<<<AM_IMM8, 163>>, <<AM_BYTEADR, 179>>, <<AM_BYTEADRX, 227>>, <<AM_WORDADR, 195>>, <<AM_WORDADRX, 211>>, <<AM_0X, 243>>>>),
  M("dec", "mne", {}, <<<<AM_IMP, 74>>, <<AM_BYTEADR, 58>>, <<AM_BYTEADRX, 106>>, <<AM_0X, 122>>>>),
  M("deca", "mne", {}, <<<<AM_IMP, 74>>>>),
  M("decx", "mne", {}, <<<<AM_IMP, 90>>>>),
  M("dex", "mne", {}, <<<<AM_IMP, 90>>>>),
  M("eor", "mne", {}, <<<<AM_IMM8, 168>>, <<AM_BYTEADR, 184>>, <<AM_BYTEADRX, 232>>, <<AM_WORDADR, 200>>, <<AM_WORDADRX, 216>>, <<AM_0X, 248>>>>),
  M("inc", "mne", {}, <<<<AM_IMP, 76>>, <<AM_BYTEADR, 60>>, <<AM_BYTEADRX, 108>>, <<AM_0X, 124>>>>),
  M("inca", "mne", {}, <<<<AM_IMP, 76>>>>),
  M("incx", "mne", {}, <<<<AM_IMP, 92>>>>),
  M("inx", "mne", {}, <<<<AM_IMP, 92>>>>),
  M("jmp", "mne", {}, <<<<AM_BYTEADR, 188>>, <<AM_BYTEADRX, 236>>, <<AM_WORDADR, 204>>, <<AM_WORDADRX, 220>>, <<AM_0X, 252>>>>),
  M("jsr", "mne", {}, <<<<AM_BYTEADR, 189>>, <<AM_BYTEADRX, 237>>, <<AM_WORDADR, 205>>, <<AM_WORDADRX, 221>>, <<AM_0X, 253>>>>),
  M("lda", "mne", {}, <<<<AM_IMM8, 166>>, <<AM_BYTEADR, 182>>, <<AM_BYTEADRX, 230>>, <<AM_WORDADR, 198>>, <<AM_WORDADRX, 214>>, <<AM_0X, 246>>>>),
  M("ldx", "mne", {}, <<<<AM_IMM8, 174>>, <<AM_BYTEADR, 190>>, <<AM_BYTEADRX, 238>>, <<AM_WORDADR, 206>>, <<AM_WORDADRX, 222>>, <<AM_0X, 254>>>>),
  M("lsl", "mne", {}, <<<<AM_IMP, 72>>, <<AM_BYTEADR, 56>>, <<AM_BYTEADRX, 104>>, <<AM_0X, 120>>>>),
  M("lsla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("lslx", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("lsr", "mne", {}, <<<<AM_IMP, 68>>, <<AM_BYTEADR, 52>>, <<AM_BYTEADRX, 100>>, <<AM_0X, 116>>>>),
  M("lsra", "mne", {}, <<<<AM_IMP, 68>>>>),
  M("lsrx", "mne", {}, <<<<AM_IMP, 84>>>>),
  M("neg", "mne", {}, <<<<AM_IMP, 64>>, <<AM_BYTEADR, 48>>, <<AM_BYTEADRX, 96>>, <<AM_0X, 112>>>>),
  M("nega", "mne", {}, <<<<AM_IMP, 64>>>>),
  M("negx", "mne", {}, <<<<AM_IMP, 80>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 157>>>>),
  M("ora", "mne", {}, <<<<AM_IMM8, 170>>, <<AM_BYTEADR, 186>>, <<AM_BYTEADRX, 234>>, <<AM_WORDADR, 202>>, <<AM_WORDADRX, 218>>, <<AM_0X, 250>>>>),
  M("rol", "mne", {}, <<<<AM_IMP, 73>>, <<AM_BYTEADR, 57>>, <<AM_BYTEADRX, 105>>, <<AM_0X, 121>>>>),
  M("rola", "mne", {}, <<<<AM_IMP, 73>>>>),
  M("rolx", "mne", {}, <<<<AM_IMP, 89>>>>),
  M("ror", "mne", {}, <<<<AM_IMP, 70>>, <<AM_BYTEADR, 54>>, <<AM_BYTEADRX, 102>>, <<AM_0X, 118>>>>),
  M("rora", "mne", {}, <<<<AM_IMP, 70>>>>),
  M("rorx", "mne", {}, <<<<AM_IMP, 86>>>>),
  M("rsp", "mne", {}, <<<<AM_IMP, 156>>>>),
  M("rti", "mne", {}, <<<<AM_IMP, 128>>>>),
  M("rts", "mne", {}, <<<<AM_IMP, 129>>>>),
  M("sbc", "mne", {}, <<<<AM_IMM8, 162>>, <<AM_BYTEADR, 178>>, <<AM_BYTEADRX, 226>>, <<AM_WORDADR, 194>>, <<AM_WORDADRX, 210>>, <<AM_0X, 242>>>>),
  M("sec", "mne", {}, <<<<AM_IMP, 153>>>>),
  M("sei", "mne", {}, <<<<AM_IMP, 155>>>>),
  M("sta", "mne", {}, <<<<AM_BYTEADR, 183>>, <<AM_BYTEADRX, 231>>, <<AM_WORDADR, 199>>, <<AM_WORDADRX, 215>>, <<AM_0X, 247>>>>),
  M("stx", "mne", {}, <<<<AM_BYTEADR, 191>>, <<AM_BYTEADRX, 239>>, <<AM_WORDADR, 207>>, <<AM_WORDADRX, 223>>, <<AM_0X, 255>>>>),
  M("sub", "mne", {}, <<<<AM_IMM8, 160>>, <<AM_BYTEADR, 176>>, <<AM_BYTEADRX, 224>>, <<AM_WORDADR, 192>>, <<AM_WORDADRX, 208>>, <<AM_0X, 240>>>>),
  M("swi", "mne", {}, <<<<AM_IMP, 131>>>>),
  M("tax", "mne", {}, <<<<AM_IMP, 151>>>>),
  M("tst", "mne", {}, <<<<AM_IMP, 77>>, <<AM_BYTEADR, 61>>, <<AM_BYTEADRX, 109>>, <<AM_0X, 125>>>>),
  M("tsta", "mne", {}, <<<<AM_IMP, 77>>>>),
  M("tstx", "mne", {}, <<<<AM_IMP, 93>>>>),
  M("txa", "mne", {}, <<<<AM_IMP, 159>>>>) >>)

Isa6811 == Table(<<
  M("aba", "mne", {}, <<<<AM_IMP, 27>>>>),
  M("abx", "mne", {}, <<<<AM_IMP, 58>>>>),
  M("aby", "mne", {}, <<<<AM_IMP, 6202>>>>),
  M("adca", "mne", {}, <<<<AM_IMM8, 137>>, <<AM_BYTEADR, 153>>, <<AM_BYTEADRX, 169>>, <<AM_BYTEADRY, 6313>>, <<AM_WORDADR, 185>>>>),
  M("adcb", "mne", {}, <<<<AM_IMM8, 201>>, <<AM_BYTEADR, 217>>, <<AM_BYTEADRX, 233>>, <<AM_BYTEADRY, 6377>>, <<AM_WORDADR, 249>>>>),
  M("adda", "mne", {}, <<<<AM_IMM8, 139>>, <<AM_BYTEADR, 155>>, <<AM_BYTEADRX, 171>>, <<AM_BYTEADRY, 6315>>, <<AM_WORDADR, 187>>>>),
  M("addb", "mne", {}, <<<<AM_IMM8, 203>>, <<AM_BYTEADR, 219>>, <<AM_BYTEADRX, 235>>, <<AM_BYTEADRY, 6379>>, <<AM_WORDADR, 251>>>>),
  M("addd", "mne", {}, <<<<AM_IMM16, 195>>, <<AM_BYTEADR, 211>>, <<AM_BYTEADRX, 227>>, <<AM_BYTEADRY, 6371>>, <<AM_WORDADR, 243>>>>),
  M("anda", "mne", {}, <<<<AM_IMM8, 132>>, <<AM_BYTEADR, 148>>, <<AM_BYTEADRX, 164>>, <<AM_BYTEADRY, 6308>>, <<AM_WORDADR, 180>>>>),
  M("andb", "mne", {}, <<<<AM_IMM8, 196>>, <<AM_BYTEADR, 212>>, <<AM_BYTEADRX, 228>>, <<AM_BYTEADRY, 6372>>, <<AM_WORDADR, 244>>>>),
  M("asla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("aslb", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("asl", "mne", {}, <<<<AM_BYTEADRX, 104>>, <<AM_BYTEADRY, 6248>>, <<AM_WORDADR, 120>>>>),
  M("asld", "mne", {}, <<<<AM_IMP, 5>>>>),
  M("asra", "mne", {}, <<<<AM_IMP, 71>>>>),
  M("asrb", "mne", {}, <<<<AM_IMP, 87>>>>),
  M("asr", "mne", {}, <<<<AM_BYTEADRX, 103>>, <<AM_BYTEADRY, 6247>>, <<AM_WORDADR, 119>>>>),
  M("bcc", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bclr", "mne", {"mask"}, <<<<AM_BYTEADR, 21>>, <<AM_BYTEADRX, 29>>, <<AM_BYTEADRY, 6173>>>>),
  M("bcs", "mne", {}, <<<<AM_REL, 37>>>>),
  M("beq", "mne", {}, <<<<AM_REL, 39>>>>),
  M("bge", "mne", {}, <<<<AM_REL, 44>>>>),
  M("bgt", "mne", {}, <<<<AM_REL, 46>>>>),
  M("bhi", "mne", {}, <<<<AM_REL, 34>>>>),
  M("bhs", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bita", "mne", {}, <<<<AM_IMM8, 133>>, <<AM_BYTEADR, 149>>, <<AM_BYTEADRX, 165>>, <<AM_BYTEADRY, 6309>>, <<AM_WORDADR, 181>>>>),
  M("bitb", "mne", {}, <<<<AM_IMM8, 197>>, <<AM_BYTEADR, 213>>, <<AM_BYTEADRX, 229>>, <<AM_BYTEADRY, 6373>>, <<AM_WORDADR, 245>>>>),
  M("ble", "mne", {}, <<<<AM_REL, 47>>>>),
  M("blo", "mne", {}, <<<<AM_REL, 37>>>>),
  M("bls", "mne", {}, <<<<AM_REL, 35>>>>),
  M("blt", "mne", {}, <<<<AM_REL, 45>>>>),
  M("bmi", "mne", {}, <<<<AM_REL, 43>>>>),
  M("bne", "mne", {}, <<<<AM_REL, 38>>>>),
  M("bpl", "mne", {}, <<<<AM_REL, 42>>>>),
  M("bra", "mne", {}, <<<<AM_REL, 32>>>>),
  M("brclr", "mne", {"mask", "rel"}, <<<<AM_BYTEADR, 19>>, <<AM_BYTEADRX, 31>>, <<AM_BYTEADRY, 6175>>>>),
  M("brn", "mne", {}, <<<<AM_REL, 33>>>>),
  M("brset", "mne", {"mask", "rel"}, <<<<AM_BYTEADR, 18>>, <<AM_BYTEADRX, 30>>, <<AM_BYTEADRY, 6174>>>>),
  M("bset", "mne", {"mask"}, <<<<AM_BYTEADR, 20>>, <<AM_BYTEADRX, 28>>, <<AM_BYTEADRY, 6172>>>>),
  M("bsr", "mne", {}, <<<<AM_REL, 141>>>>),
  M("bvc", "mne", {}, <<<<AM_REL, 40>>>>),
  M("bvs", "mne", {}, <<<<AM_REL, 41>>>>),
  M("cba", "mne", {}, <<<<AM_IMP, 17>>>>),
  M("clc", "mne", {}, <<<<AM_IMP, 12>>>>),
  M("cli", "mne", {}, <<<<AM_IMP, 14>>>>),
  M("clra", "mne", {}, <<<<AM_IMP, 79>>>>),
  M("clrb", "mne", {}, <<<<AM_IMP, 95>>>>),
  M("clr", "mne", {}, <<<<AM_BYTEADRX, 111>>, <<AM_BYTEADRY, 6255>>, <<AM_WORDADR, 127>>>>),
  M("clv", "mne", {}, <<<<AM_IMP, 10>>>>),
  M("cmpa", "mne", {}, <<<<AM_IMM8, 129>>, <<AM_BYTEADR, 145>>, <<AM_BYTEADRX, 161>>, <<AM_BYTEADRY, 6305>>, <<AM_WORDADR, 177>>>>),
  M("cmpb", "mne", {}, <<<<AM_IMM8, 193>>, <<AM_BYTEADR, 209>>, <<AM_BYTEADRX, 225>>, <<AM_BYTEADRY, 6369>>, <<AM_WORDADR, 241>>>>),
  M("coma", "mne", {}, <<<<AM_IMP, 67>>>>),
  M("comb", "mne", {}, <<<<AM_IMP, 83>>>>),
  M("com", "mne", {}, <<<<AM_BYTEADRX, 99>>, <<AM_BYTEADRY, 6243>>, <<AM_WORDADR, 115>>>>),
  M("cpd", "mne", {}, <<<<AM_IMM16, 6787>>, <<AM_BYTEADR, 6803>>, <<AM_BYTEADRX, 6819>>, <<AM_BYTEADRY, 52643>>, <<AM_WORDADR, 6835>>>>),
  M("cpx", "mne", {}, <<<<AM_IMM16, 140>>, <<AM_BYTEADR, 156>>, <<AM_BYTEADRX, 172>>, <<AM_BYTEADRY, 52652>>, <<AM_WORDADR, 188>>>>),
  M("cpy", "mne", {}, <<<<AM_IMM16, 6284>>, <<AM_BYTEADR, 6300>>, <<AM_BYTEADRX, 6828>>, <<AM_BYTEADRY, 6316>>, <<AM_WORDADR, 6332>>>>),
  M("daa", "mne", {}, <<<<AM_IMP, 25>>>>),
  M("deca", "mne", {}, <<<<AM_IMP, 74>>>>),
  M("decb", "mne", {}, <<<<AM_IMP, 90>>>>),
  M("dec", "mne", {}, <<<<AM_BYTEADRX, 106>>, <<AM_BYTEADRY, 6250>>, <<AM_WORDADR, 122>>>>),
  M("des", "mne", {}, <<<<AM_IMP, 52>>>>),
  M("dex", "mne", {}, <<<<AM_IMP, 9>>>>),
  M("dey", "mne", {}, <<<<AM_IMP, 6153>>>>),
  M("eora", "mne", {}, <<<<AM_IMM8, 136>>, <<AM_BYTEADR, 152>>, <<AM_BYTEADRX, 168>>, <<AM_BYTEADRY, 6312>>, <<AM_WORDADR, 184>>>>),
  M("eorb", "mne", {}, <<<<AM_IMM8, 200>>, <<AM_BYTEADR, 216>>, <<AM_BYTEADRX, 232>>, <<AM_BYTEADRY, 6376>>, <<AM_WORDADR, 248>>>>),
  M("fdiv", "mne", {}, <<<<AM_IMP, 3>>>>),
  M("idiv", "mne", {}, <<<<AM_IMP, 2>>>>),
  M("inca", "mne", {}, <<<<AM_IMP, 76>>>>),
  M("incb", "mne", {}, <<<<AM_IMP, 92>>>>),
  M("inc", "mne", {}, <<<<AM_BYTEADRX, 108>>, <<AM_BYTEADRY, 6252>>, <<AM_WORDADR, 124>>>>),
  M("ins", "mne", {}, <<<<AM_IMP, 49>>>>),
  M("inx", "mne", {}, <<<<AM_IMP, 8>>>>),
  M("iny", "mne", {}, <<<<AM_IMP, 6152>>>>),
  M("jmp", "mne", {}, <<<<AM_BYTEADRX, 110>>, <<AM_BYTEADRY, 6254>>, <<AM_WORDADR, 126>>>>),
  M("jsr", "mne", {}, <<<<AM_BYTEADR, 157>>, <<AM_BYTEADRX, 173>>, <<AM_BYTEADRY, 6317>>, <<AM_WORDADR, 189>>>>),
  M("ldaa", "mne", {}, <<<<AM_IMM8, 134>>, <<AM_BYTEADR, 150>>, <<AM_BYTEADRX, 166>>, <<AM_BYTEADRY, 6310>>, <<AM_WORDADR, 182>>>>),
  M("ldab", "mne", {}, <<<<AM_IMM8, 198>>, <<AM_BYTEADR, 214>>, <<AM_BYTEADRX, 230>>, <<AM_BYTEADRY, 6374>>, <<AM_WORDADR, 246>>>>),
  M("ldd", "mne", {}, <<<<AM_IMM16, 204>>, <<AM_BYTEADR, 220>>, <<AM_BYTEADRX, 236>>, <<AM_BYTEADRY, 6380>>, <<AM_WORDADR, 252>>>>),
  M("lds", "mne", {}, <<<<AM_IMM16, 142>>, <<AM_BYTEADR, 158>>, <<AM_BYTEADRX, 174>>, <<AM_BYTEADRY, 6318>>, <<AM_WORDADR, 190>>>>),
  M("ldx", "mne", {}, <<<<AM_IMM16, 206>>, <<AM_BYTEADR, 222>>, <<AM_BYTEADRX, 238>>, <<AM_BYTEADRY, 52718>>, <<AM_WORDADR, 254>>>>),
  M("ldy", "mne", {}, <<<<AM_IMM16, 6350>>, <<AM_BYTEADR, 6366>>, <<AM_BYTEADRX, 6894>>, <<AM_BYTEADRY, 6382>>, <<AM_WORDADR, 6398>>>>),
  M("lsla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("lslb", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("lsl", "mne", {}, <<<<AM_BYTEADRX, 104>>, <<AM_BYTEADRY, 6248>>, <<AM_WORDADR, 120>>>>),
  M("lsld", "mne", {}, <<<<AM_IMP, 5>>>>),
  M("lsra", "mne", {}, <<<<AM_IMP, 68>>>>),
  M("lsrb", "mne", {}, <<<<AM_IMP, 84>>>>),
  M("lsr", "mne", {}, <<<<AM_BYTEADRX, 100>>, <<AM_BYTEADRY, 6244>>, <<AM_WORDADR, 116>>>>),
  M("lsrd", "mne", {}, <<<<AM_IMP, 4>>>>),
  M("mul", "mne", {}, <<<<AM_IMP, 61>>>>),
  M("nega", "mne", {}, <<<<AM_IMP, 64>>>>),
  M("negb", "mne", {}, <<<<AM_IMP, 80>>>>),
  M("neg", "mne", {}, <<<<AM_BYTEADRX, 96>>, <<AM_BYTEADRY, 6240>>, <<AM_WORDADR, 112>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 1>>>>),
  M("oraa", "mne", {}, <<<<AM_IMM8, 138>>, <<AM_BYTEADR, 154>>, <<AM_BYTEADRX, 170>>, <<AM_BYTEADRY, 6314>>, <<AM_WORDADR, 186>>>>),
  M("orab", "mne", {}, <<<<AM_IMM8, 202>>, <<AM_BYTEADR, 218>>, <<AM_BYTEADRX, 234>>, <<AM_BYTEADRY, 6378>>, <<AM_WORDADR, 250>>>>),
  M("psha", "mne", {}, <<<<AM_IMP, 54>>>>),
  M("pshb", "mne", {}, <<<<AM_IMP, 55>>>>),
  M("pshx", "mne", {}, <<<<AM_IMP, 60>>>>),
  M("pshy", "mne", {}, <<<<AM_IMP, 6204>>>>),
  M("pula", "mne", {}, <<<<AM_IMP, 50>>>>),
  M("pulb", "mne", {}, <<<<AM_IMP, 51>>>>),
  M("pulx", "mne", {}, <<<<AM_IMP, 56>>>>),
  M("puly", "mne", {}, <<<<AM_IMP, 6200>>>>),
  M("rola", "mne", {}, <<<<AM_IMP, 73>>>>),
  M("rolb", "mne", {}, <<<<AM_IMP, 89>>>>),
  M("rol", "mne", {}, <<<<AM_BYTEADRX, 105>>, <<AM_BYTEADRY, 6249>>, <<AM_WORDADR, 121>>>>),
  M("rora", "mne", {}, <<<<AM_IMP, 70>>>>),
  M("rorb", "mne", {}, <<<<AM_IMP, 86>>>>),
  M("ror", "mne", {}, <<<<AM_BYTEADRX, 102>>, <<AM_BYTEADRY, 6246>>, <<AM_WORDADR, 118>>>>),
  M("rti", "mne", {}, <<<<AM_IMP, 59>>>>),
  M("rts", "mne", {}, <<<<AM_IMP, 57>>>>),
  M("sba", "mne", {}, <<<<AM_IMP, 16>>>>),
  M("sbca", "mne", {}, <<<<AM_IMM8, 130>>, <<AM_BYTEADR, 146>>, <<AM_BYTEADRX, 162>>, <<AM_BYTEADRY, 6306>>, <<AM_WORDADR, 178>>>>),
  M("sbcb", "mne", {}, <<<<AM_IMM8, 194>>, <<AM_BYTEADR, 210>>, <<AM_BYTEADRX, 226>>, <<AM_BYTEADRY, 6370>>, <<AM_WORDADR, 242>>>>),
  M("sec", "mne", {}, <<<<AM_IMP, 13>>>>),
  M("sei", "mne", {}, <<<<AM_IMP, 15>>>>),
  M("sev", "mne", {}, <<<<AM_IMP, 11>>>>),
  M("staa", "mne", {}, <<<<AM_BYTEADR, 151>>, <<AM_BYTEADRX, 167>>, <<AM_BYTEADRY, 6311>>, <<AM_WORDADR, 183>>>>),
  M("stab", "mne", {}, <<<<AM_BYTEADR, 215>>, <<AM_BYTEADRX, 231>>, <<AM_BYTEADRY, 6375>>, <<AM_WORDADR, 247>>>>),
  M("std", "mne", {}, <<<<AM_BYTEADR, 221>>, <<AM_BYTEADRX, 237>>, <<AM_BYTEADRY, 6381>>, <<AM_WORDADR, 253>>>>),
  M("stop", "mne", {}, <<<<AM_IMP, 207>>>>),
  M("sts", "mne", {}, <<<<AM_BYTEADR, 159>>, <<AM_BYTEADRX, 175>>, <<AM_BYTEADRY, 6319>>, <<AM_WORDADR, 191>>>>),
  M("stx", "mne", {}, <<<<AM_BYTEADR, 223>>, <<AM_BYTEADRX, 239>>, <<AM_BYTEADRY, 52719>>, <<AM_WORDADR, 255>>>>),
  M("sty", "mne", {}, <<<<AM_BYTEADR, 6367>>, <<AM_BYTEADRX, 6895>>, <<AM_BYTEADRY, 6383>>, <<AM_WORDADR, 6399>>>>),
  M("suba", "mne", {}, <<<<AM_IMM8, 128>>, <<AM_BYTEADR, 144>>, <<AM_BYTEADRX, 160>>, <<AM_BYTEADRY, 6304>>, <<AM_WORDADR, 176>>>>),
  M("subb", "mne", {}, <<<<AM_IMM8, 192>>, <<AM_BYTEADR, 208>>, <<AM_BYTEADRX, 224>>, <<AM_BYTEADRY, 6368>>, <<AM_WORDADR, 240>>>>),
  M("subd", "mne", {}, <<<<AM_IMM16, 131>>, <<AM_BYTEADR, 147>>, <<AM_BYTEADRX, 163>>, <<AM_BYTEADRY, 6307>>, <<AM_WORDADR, 179>>>>),
  M("swi", "mne", {}, <<<<AM_IMP, 63>>>>),
  M("tab", "mne", {}, <<<<AM_IMP, 22>>>>),
  M("tap", "mne", {}, <<<<AM_IMP, 6>>>>),
  M("tba", "mne", {}, <<<<AM_IMP, 23>>>>),
  M("test", "mne", {}, <<<<AM_IMP, 0>>>>),
  M("tpa", "mne", {}, <<<<AM_IMP, 7>>>>),
  M("tsta", "mne", {}, <<<<AM_IMP, 77>>>>),
  M("tstb", "mne", {}, <<<<AM_IMP, 93>>>>),
  M("tst", "mne", {}, <<<<AM_BYTEADRX, 109>>, <<AM_BYTEADRY, 6253>>, <<AM_WORDADR, 125>>>>),
  M("tsx", "mne", {}, <<<<AM_IMP, 48>>>>),
  M("tsy", "mne", {}, <<<<AM_IMP, 6192>>>>),
  M("txs", "mne", {}, <<<<AM_IMP, 53>>>>),
  M("tys", "mne", {}, <<<<AM_IMP, 6197>>>>),
  M("wai", "mne", {}, <<<<AM_IMP, 62>>>>),
  M("xgdx", "mne", {}, <<<<AM_IMP, 143>>>>),
  M("xgdy", "mne", {}, <<<<AM_IMP, 6287>>>>) >>)

Isa68908 == Table(<<
  M("adc", "mne", {}, <<<<AM_IMM8, 169>>, <<AM_BYTEADR, 185>>, <<AM_BYTEADRX, 233>>, <<AM_WORDADR, 201>>, <<AM_WORDADRX, 217>>, <<AM_0X, 249>>, <<AM_BYTEADR_SP, 40681>>, <<AM_WORDADR_SP, 40665>>>>),
  M("add", "mne", {}, <<<<AM_IMM8, 171>>, <<AM_BYTEADR, 187>>, <<AM_BYTEADRX, 235>>, <<AM_WORDADR, 203>>, <<AM_WORDADRX, 219>>, <<AM_0X, 251>>, <<AM_BYTEADR_SP, 40683>>, <<AM_WORDADR_SP, 40667>>>>),
  M("ais", "mne", {}, <<<<AM_IMM8, 167>>>>),
  M("aix", "mne", {}, <<<<AM_IMM8, 175>>>>),
  M("and", "mne", {}, <<<<AM_IMM8, 164>>, <<AM_BYTEADR, 180>>, <<AM_BYTEADRX, 228>>, <<AM_WORDADR, 196>>, <<AM_WORDADRX, 212>>, <<AM_0X, 244>>, <<AM_BYTEADR_SP, 40676>>, <<AM_WORDADR_SP, 40660>>>>),
  M("asl", "mne", {}, <<<<AM_BYTEADR, 56>>, <<AM_BYTEADRX, 104>>, <<AM_0X, 120>>, <<AM_BYTEADR_SP, 40552>>>>),
  M("asla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("aslx", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("asr", "mne", {}, <<<<AM_BYTEADR, 55>>, <<AM_BYTEADRX, 103>>, <<AM_0X, 119>>, <<AM_BYTEADR_SP, 40551>>>>),
  M("asra", "mne", {}, <<<<AM_IMP, 71>>>>),
  M("asrx", "mne", {}, <<<<AM_IMP, 87>>>>),
  M("bcc", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bclr", "mne", {"imod"}, <<<<AM_BITMOD, 17>>>>),
  M("bcs", "mne", {}, <<<<AM_REL, 37>>>>),
  M("beq", "mne", {}, <<<<AM_REL, 39>>>>),
  M("bge", "mne", {}, <<<<AM_REL, 144>>>>),
  M("bgt", "mne", {}, <<<<AM_REL, 146>>>>),
  M("bhcc", "mne", {}, <<<<AM_REL, 40>>>>),
  M("bhcs", "mne", {}, <<<<AM_REL, 41>>>>),
  M("bhi", "mne", {}, <<<<AM_REL, 34>>>>),
  M("bhs", "mne", {}, <<<<AM_REL, 36>>>>),
  M("bih", "mne", {}, <<<<AM_REL, 47>>>>),
  M("bil", "mne", {}, <<<<AM_REL, 46>>>>),
  M("bit", "mne", {}, <<<<AM_IMM8, 165>>, <<AM_BYTEADR, 181>>, <<AM_BYTEADRX, 229>>, <<AM_WORDADR, 197>>, <<AM_WORDADRX, 213>>, <<AM_0X, 245>>, <<AM_BYTEADR_SP, 40677>>, <<AM_WORDADR_SP, 40661>>>>),
  M("ble", "mne", {}, <<<<AM_REL, 147>>>>),
  M("blo", "mne", {}, <<<<AM_REL, 37>>>>),
  M("bls", "mne", {}, <<<<AM_REL, 35>>>>),
  M("blt", "mne", {}, <<<<AM_REL, 145>>>>),
  M("bmc", "mne", {}, <<<<AM_REL, 44>>>>),
  M("bmi", "mne", {}, <<<<AM_REL, 43>>>>),
  M("bms", "mne", {}, <<<<AM_REL, 45>>>>),
  M("bne", "mne", {}, <<<<AM_REL, 38>>>>),
  M("bpl", "mne", {}, <<<<AM_REL, 42>>>>),
  M("bra", "mne", {}, <<<<AM_REL, 32>>>>),
  M("brclr", "mne", {"imod", "rel"}, <<<<AM_BITBRAMOD, 1>>>>),
  M("brn", "mne", {}, <<<<AM_REL, 33>>>>),
  M("brset", "mne", {"imod", "rel"}, <<<<AM_BITBRAMOD, 0>>>>),
  M("bset", "mne", {"imod"}, <<<<AM_BITMOD, 16>>>>),
  M("bsr", "mne", {}, <<<<AM_REL, 173>>>>),
  M("cbeqa", "mne", {"mask"}, <<<<AM_REL, 65>>>>),
  M("cbeq", "mne", {"rel"}, <<<<AM_BYTEADR, 49>>, <<AM_INDBYTEX, 97>>, <<AM_0X, 113>>, <<AM_BYTEADR_SP, 40545>>>>),
  M("cbeqx", "mne", {"mask"}, <<<<AM_REL, 81>>>>),
  M("clc", "mne", {}, <<<<AM_IMP, 152>>>>),
  M("cli", "mne", {}, <<<<AM_IMP, 154>>>>),
  M("clr", "mne", {}, <<<<AM_BYTEADR, 63>>, <<AM_BYTEADRX, 111>>, <<AM_0X, 127>>, <<AM_BYTEADR_SP, 40559>>>>),
  M("clra", "mne", {}, <<<<AM_IMP, 79>>>>),
  M("clrh", "mne", {}, <<<<AM_IMP, 140>>>>),
  M("clrx", "mne", {}, <<<<AM_IMP, 95>>>>),
  M("cmp", "mne", {}, <<<<AM_IMM8, 161>>, <<AM_BYTEADR, 177>>, <<AM_BYTEADRX, 225>>, <<AM_WORDADR, 193>>, <<AM_WORDADRX, 209>>, <<AM_0X, 241>>, <<AM_BYTEADR_SP, 40673>>, <<AM_WORDADR_SP, 40657>>>>),
  M("com", "mne", {}, <<<<AM_BYTEADR, 51>>, <<AM_BYTEADRX, 99>>, <<AM_0X, 115>>, <<AM_BYTEADR_SP, 40547>>>>),
  M("coma", "mne", {}, <<<<AM_IMP, 67>>>>),
  M("comx", "mne", {}, <<<<AM_IMP, 83>>>>),
  M("cphx", "mne", {}, <<<<AM_IMM16, 101>>, <<AM_BYTEADR, 117>>>>),
  M("cpx", "mne", {}, <<<<AM_IMM8, 163>>, <<AM_BYTEADR, 179>>, <<AM_BYTEADRX, 227>>, <<AM_WORDADR, 195>>, <<AM_WORDADRX, 211>>, <<AM_0X, 243>>, <<AM_BYTEADR_SP, 40675>>, <<AM_WORDADR_SP, 40659>>>>),
  M("daa", "mne", {}, <<<<AM_IMP, 114>>>>),
  M("dbnz", "mne", {"rel"}, <<<<AM_BYTEADR, 59>>, <<AM_BYTEADRX, 107>>, <<AM_0X, 123>>, <<AM_BYTEADR_SP, 40555>>>>),
  M("dbnza", "mne", {}, <<<<AM_REL, 75>>>>),
  M("dbnzx", "mne", {}, <<<<AM_REL, 91>>>>),
  M("dec", "mne", {}, <<<<AM_BYTEADR, 58>>, <<AM_BYTEADRX, 106>>, <<AM_0X, 122>>, <<AM_BYTEADR_SP, 40554>>>>),
  M("deca", "mne", {}, <<<<AM_IMP, 74>>>>),
  M("decx", "mne", {}, <<<<AM_IMP, 90>>>>),
  M("div", "mne", {}, <<<<AM_IMP, 82>>>>),
  M("eor", "mne", {}, <<<<AM_IMM8, 168>>, <<AM_BYTEADR, 184>>, <<AM_BYTEADRX, 232>>, <<AM_WORDADR, 200>>, <<AM_WORDADRX, 216>>, <<AM_0X, 248>>, <<AM_BYTEADR_SP, 40680>>, <<AM_WORDADR_SP, 40664>>>>),
  M("inc", "mne", {}, <<<<AM_BYTEADR, 60>>, <<AM_BYTEADRX, 108>>, <<AM_0X, 124>>, <<AM_BYTEADR_SP, 40556>>>>),
  M("inca", "mne", {}, <<<<AM_IMP, 76>>>>),
  M("incx", "mne", {}, <<<<AM_IMP, 92>>>>),
  M("jmp", "mne", {}, <<<<AM_BYTEADR, 188>>, <<AM_BYTEADRX, 236>>, <<AM_WORDADR, 204>>, <<AM_WORDADRX, 220>>, <<AM_0X, 252>>>>),
  M("jsr", "mne", {}, <<<<AM_BYTEADR, 189>>, <<AM_BYTEADRX, 237>>, <<AM_WORDADR, 205>>, <<AM_WORDADRX, 221>>, <<AM_0X, 253>>>>),
  M("lda", "mne", {}, <<<<AM_IMM8, 166>>, <<AM_BYTEADR, 182>>, <<AM_BYTEADRX, 230>>, <<AM_WORDADR, 198>>, <<AM_WORDADRX, 214>>, <<AM_0X, 246>>, <<AM_BYTEADR_SP, 40678>>, <<AM_WORDADR_SP, 40662>>>>),
  M("ldhx", "mne", {}, <<<<AM_IMM16, 69>>, <<AM_BYTEADR, 85>>>>),
  M("ldx", "mne", {}, <<<<AM_IMM8, 174>>, <<AM_BYTEADR, 190>>, <<AM_BYTEADRX, 238>>, <<AM_WORDADR, 206>>, <<AM_WORDADRX, 222>>, <<AM_0X, 254>>, <<AM_BYTEADR_SP, 40686>>, <<AM_WORDADR_SP, 40670>>>>),
  M("lsl", "mne", {}, <<<<AM_BYTEADR, 56>>, <<AM_BYTEADRX, 104>>, <<AM_0X, 120>>, <<AM_BYTEADR_SP, 40552>>>>),
  M("lsla", "mne", {}, <<<<AM_IMP, 72>>>>),
  M("lslx", "mne", {}, <<<<AM_IMP, 88>>>>),
  M("lsr", "mne", {}, <<<<AM_BYTEADR, 52>>, <<AM_BYTEADRX, 100>>, <<AM_0X, 116>>, <<AM_BYTEADR_SP, 40548>>>>),
  M("lsra", "mne", {}, <<<<AM_IMP, 68>>>>),
  M("lsrx", "mne", {}, <<<<AM_IMP, 84>>>>),
  M("mov", "mne", {"mask"}, <<<<AM_IMM8, 110>>, <<AM_BYTEADR, 78>>>>),
  M("movp", "mne", {}, <<<<AM_BYTEADRX, 94>>>>),
  M("xmov", "mne", {}, <<<<AM_BYTEADR, 126>>>>),
  M("mul", "mne", {}, <<<<AM_IMP, 66>>>>),
  M("neg", "mne", {}, <<<<AM_BYTEADR, 48>>, <<AM_BYTEADRX, 96>>, <<AM_0X, 112>>, <<AM_BYTEADR_SP, 40544>>>>),
  M("nega", "mne", {}, <<<<AM_IMP, 64>>>>),
  M("negx", "mne", {}, <<<<AM_IMP, 80>>>>),
  M("nsa", "mne", {}, <<<<AM_IMP, 98>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 157>>>>),
  M("ora", "mne", {}, <<<<AM_IMM8, 170>>, <<AM_BYTEADR, 186>>, <<AM_BYTEADRX, 234>>, <<AM_WORDADR, 202>>, <<AM_WORDADRX, 218>>, <<AM_0X, 250>>, <<AM_BYTEADR_SP, 40682>>, <<AM_WORDADR_SP, 40666>>>>),
  M("psha", "mne", {}, <<<<AM_IMP, 135>>>>),
  M("pshh", "mne", {}, <<<<AM_IMP, 139>>>>),
  M("pshx", "mne", {}, <<<<AM_IMP, 137>>>>),
  M("pula", "mne", {}, <<<<AM_IMP, 134>>>>),
  M("pulh", "mne", {}, <<<<AM_IMP, 138>>>>),
  M("pulx", "mne", {}, <<<<AM_IMP, 136>>>>),
  M("rol", "mne", {}, <<<<AM_BYTEADR, 57>>, <<AM_BYTEADRX, 105>>, <<AM_0X, 121>>, <<AM_BYTEADR_SP, 40553>>>>),
  M("rola", "mne", {}, <<<<AM_IMP, 73>>>>),
  M("rolx", "mne", {}, <<<<AM_IMP, 89>>>>),
  M("ror", "mne", {}, <<<<AM_BYTEADR, 54>>, <<AM_BYTEADRX, 102>>, <<AM_0X, 118>>, <<AM_BYTEADR_SP, 40550>>>>),
  M("rora", "mne", {}, <<<<AM_IMP, 70>>>>),
  M("rorx", "mne", {}, <<<<AM_IMP, 86>>>>),
  M("rsp", "mne", {}, <<<<AM_IMP, 156>>>>),
  M("rti", "mne", {}, <<<<AM_IMP, 128>>>>),
  M("rts", "mne", {}, <<<<AM_IMP, 129>>>>),
  M("sbc", "mne", {}, <<<<AM_IMM8, 162>>, <<AM_BYTEADR, 178>>, <<AM_BYTEADRX, 226>>, <<AM_WORDADR, 194>>, <<AM_WORDADRX, 210>>, <<AM_0X, 242>>, <<AM_BYTEADR_SP, 40674>>, <<AM_WORDADR_SP, 40658>>>>),
  M("sec", "mne", {}, <<<<AM_IMP, 153>>>>),
  M("sei", "mne", {}, <<<<AM_IMP, 155>>>>),
  M("sta", "mne", {}, <<<<AM_BYTEADR, 183>>, <<AM_BYTEADRX, 231>>, <<AM_WORDADR, 199>>, <<AM_WORDADRX, 215>>, <<AM_0X, 247>>, <<AM_BYTEADR_SP, 40679>>, <<AM_WORDADR_SP, 40663>>>>),
  M("sthx", "mne", {}, <<<<AM_BYTEADR, 53>>>>),
  M("stop", "mne", {}, <<<<AM_IMP, 142>>>>),
  M("stx", "mne", {}, <<<<AM_BYTEADR, 191>>, <<AM_BYTEADRX, 239>>, <<AM_WORDADR, 207>>, <<AM_WORDADRX, 223>>, <<AM_0X, 255>>, <<AM_BYTEADR_SP, 40687>>, <<AM_WORDADR_SP, 40671>>>>),
  M("sub", "mne", {}, <<<<AM_IMM8, 160>>, <<AM_BYTEADR, 176>>, <<AM_BYTEADRX, 224>>, <<AM_WORDADR, 192>>, <<AM_WORDADRX, 208>>, <<AM_0X, 240>>, <<AM_BYTEADR_SP, 40672>>, <<AM_WORDADR_SP, 40656>>>>),
  M("swi", "mne", {}, <<<<AM_IMP, 131>>>>),
  M("tap", "mne", {}, <<<<AM_IMP, 132>>>>),
  M("tax", "mne", {}, <<<<AM_IMP, 151>>>>),
  M("thxs", "mne", {}, <<<<AM_IMP, 148>>>>),
  M("tpa", "mne", {}, <<<<AM_IMP, 133>>>>),
  M("tshx", "mne", {}, <<<<AM_IMP, 149>>>>),
  M("tst", "mne", {}, <<<<AM_BYTEADR, 61>>, <<AM_BYTEADRX, 109>>, <<AM_0X, 125>>, <<AM_BYTEADR_SP, 40557>>>>),
  M("tsta", "mne", {}, <<<<AM_IMP, 77>>>>),
  M("tstx", "mne", {}, <<<<AM_IMP, 93>>>>),
  M("txa", "mne", {}, <<<<AM_IMP, 159>>>>),
  M("wait", "mne", {}, <<<<AM_IMP, 143>>>>) >>)

IsaF8 == Table(<<
  M("res", "ds", {}, <<>>),
  M("db", "dc", {}, <<>>),
  M("dw", "dc", {}, <<>>),
  M("dd", "dc", {}, <<>>),
  M("adc", "mne", {}, <<<<AM_IMP, 142>>>>),
  M("ai", "byteop", {}, <<<<AM_IMP, 36>>>>),
  M("am", "mne", {}, <<<<AM_IMP, 136>>>>),
  M("amd", "mne", {}, <<<<AM_IMP, 137>>>>),
  M("as", "sreg_op", {}, <<<<AM_IMP, 192>>>>),
  M("asd", "sreg_op", {}, <<<<AM_IMP, 208>>>>),
  M("bc", "branch", {}, <<<<AM_IMP, 130>>>>),
  M("bf", "bf_bt", {}, <<<<AM_IMP, 144>>>>),
  M("bm", "branch", {}, <<<<AM_IMP, 145>>>>),
  M("bnc", "branch", {}, <<<<AM_IMP, 146>>>>),
  M("bno", "branch", {}, <<<<AM_IMP, 152>>>>),
  M("bnz", "branch", {}, <<<<AM_IMP, 148>>>>),
  M("bp", "branch", {}, <<<<AM_IMP, 129>>>>),
  M("br", "branch", {}, <<<<AM_IMP, 144>>>>),
  M("br7", "branch", {}, <<<<AM_IMP, 143>>>>),
  M("bt", "bf_bt", {}, <<<<AM_IMP, 128>>>>),
  M("bz", "branch", {}, <<<<AM_IMP, 132>>>>),
  M("ci", "byteop", {}, <<<<AM_IMP, 37>>>>),
  M("clr", "mne", {}, <<<<AM_IMP, 112>>>>),
  M("cm", "mne", {}, <<<<AM_IMP, 141>>>>),
  M("com", "mne", {}, <<<<AM_IMP, 24>>>>),
  M("dci", "wordop", {}, <<<<AM_IMP, 42>>>>),
  M("di", "mne", {}, <<<<AM_IMP, 26>>>>),
  M("ds", "sreg_op", {}, <<<<AM_IMP, 48>>>>),
  M("ei", "mne", {}, <<<<AM_IMP, 27>>>>),
  M("in", "byteop", {}, <<<<AM_IMP, 38>>>>),
  M("inc", "mne", {}, <<<<AM_IMP, 31>>>>),
  M("ins", "ins_outs", {}, <<<<AM_IMP, 160>>>>),
  M("jmp", "wordop", {}, <<<<AM_IMP, 41>>>>),
  M("li", "byteop", {}, <<<<AM_IMP, 32>>>>),
  M("lis", "lis", {}, <<>>),
  M("lisl", "lisu_lisl", {}, <<<<AM_IMP, 104>>>>),
  M("lisu", "lisu_lisl", {}, <<<<AM_IMP, 96>>>>),
  M("lm", "mne", {}, <<<<AM_IMP, 22>>>>),
  M("lnk", "mne", {}, <<<<AM_IMP, 25>>>>),
  M("lr", "lr", {}, <<>>),
  M("ni", "byteop", {}, <<<<AM_IMP, 33>>>>),
  M("nm", "mne", {}, <<<<AM_IMP, 138>>>>),
  M("nop", "mne", {}, <<<<AM_IMP, 43>>>>),
  M("ns", "sreg_op", {}, <<<<AM_IMP, 240>>>>),
  M("oi", "byteop", {}, <<<<AM_IMP, 34>>>>),
  M("om", "mne", {}, <<<<AM_IMP, 139>>>>),
  M("out", "byteop", {}, <<<<AM_IMP, 39>>>>),
  M("outs", "ins_outs", {}, <<<<AM_IMP, 176>>>>),
  M("pi", "wordop", {}, <<<<AM_IMP, 40>>>>),
  M("pk", "mne", {}, <<<<AM_IMP, 12>>>>),
  M("pop", "mne", {}, <<<<AM_IMP, 28>>>>),
  M("sl", "sl_sr", {}, <<<<AM_IMP, 19>>>>),
  M("sr", "sl_sr", {}, <<<<AM_IMP, 18>>>>),
  M("st", "mne", {}, <<<<AM_IMP, 23>>>>),
  M("xdc", "mne", {}, <<<<AM_IMP, 44>>>>),
  M("xi", "byteop", {}, <<<<AM_IMP, 35>>>>),
  M("xm", "mne", {}, <<<<AM_IMP, 140>>>>),
  M("xs", "sreg_op", {}, <<<<AM_IMP, 224>>>>) >>)

CpuTable(p) == CASE p = "6502" -> Isa6502 [] p = "65c02" -> Isa65c02 [] p = "6803" -> Isa6803
                 [] p = "6303" -> IsaHD6303 @@ Isa6803 [] p = "68705" -> Isa68705 [] p = "6811" -> Isa6811
                 [] p = "68908" -> Isa68908 [] p = "f8" -> IsaF8 [] p = "none" -> EmptyMap
CpuTables == [p \in {"6502", "65c02", "6803", "6303", "68705", "6811", "68908", "f8", "none"} |-> CpuTable(p)]
=============================================================================

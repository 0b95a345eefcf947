"""Bitmaps."""
from_ = "bitmap/"
CASES = []
BY, SH, IN, LO = from_ + "ByteBitMap.java", from_ + "ShortBitMap.java", from_ + "IntBitMap.java", from_ + "LongBitMap.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


bug("long-int-shift", "C24", (LO, "long bit = 1L << (63 - pos);\n    bits |=", "long bit = 1 << (63 - pos);\n    bits |="))
bug("long-get-int-shift", "C24", (LO, "(bits & (1L <<", "(bits & (1 <<"))
bug("short-get-positive", "C24", (SH, "!= 0;", "> 0;"), (SH, "(bits & (1 << (15 - pos)))", "(short) (bits & (1 << (15 - pos)))"))
bug("int-get-positive", "C24", (IN, "!= 0;\n  }", "> 0;\n  }"))
bug("short-set-14", "C24", (SH, "int bit = 1 << (15 - pos);\n    bits |=", "int bit = 1 << (14 - pos);\n    bits |="))
bug("int-clear-toggles", "C24", (IN, "bits &= ~bit;", "bits ^= bit;"))
bug("byte-clear-toggles", "C24", (BY, "bits &= ~bit;", "bits ^= bit;"))
bug("bitcount-int-24", "C24", (IN, "return 32;", "return 24;"))
bug("short-sign-fill", "C24", (SH, "bits |= bit;", "bits = (short) (bits | (byte) bit);"))
bug("byte-read-merges", "C25", (BY, "bits = buf.readByte();", "bits |= buf.readByte();"))
bug("byte-read-unsigned-half", "C25", (BY, "bits = buf.readByte();", "bits = (byte) (buf.readByte() & 0x7F);"))
bug("short-read-swapped", "C25", (SH, "((b1 & 0x7F) << 8) | (b2 & 0x7F)", "((b2 & 0x7F) << 8) | (b1 & 0x7F)"))
bug("short-read-sign", "C25", (SH, "| (b2 & 0x7F)", "| b2"))
bug("int-read-merges", "C25", (IN, "    bits = 0;\n    boolean", "    boolean"))
bug("long-read-int", "C25", (LO, "((long) (b & 0x7F)) << shift", "(b & 0x7F) << shift"))
bug("long-write-mask", "C25", (LO, "(49 - i * 7)", "(48 - i * 7)"))
bug("int-write-3", "C25", (IN, "i < 4; i++", "i < 3; i++"))
bug("long-write-stops", "C25", (LO, "if (i < 7)", "if (i < 6)"))
same("mask-helper", (IN, "int bit = 1 << (31 - pos);\n    bits |= bit;", "bits |= mask(pos);"), (IN, "  @Override\n  public int bitCount", "  private static int mask(int pos) {\n    return 0x80000000 >>> pos;\n  }\n\n  @Override\n  public int bitCount"))
same("long-get-shift", (LO, "(bits & (1L << (63 - pos))) != 0", "(bits >>> (63 - pos) & 1L) == 1L"))
same("byte-get-shift", (BY, "(bits & (1 << (7 - pos))) != 0", "((bits >> (7 - pos)) & 1) != 0"))
same("short-write-short", (SH, "    byte high = (byte) ((bits >> 8) & 0xFF);\n    byte low = (byte) (bits & 0xFF);\n    high |= 0x80;\n    buf.writeByte(high);\n    buf.writeByte(low);", "    buf.writeShort(bits | 0x8000);"))
same("short-read-ushort", (SH, "    byte b1 = buf.readByte();\n    byte b2 = buf.readByte();\n    bits = (short) (((b1 & 0x7F) << 8) | (b2 & 0x7F));", "    bits = (short) (buf.readUnsignedShort() & 0x7F7F);"))
same("int-loop-while", (IN, "    for (int i = 0; i < 4; i++) {\n      byte b = (byte) ((bits >> (24 - i * 7)) & 0x7F);\n      if (i < 3) b |= 0x80;\n      buf.writeByte(b);\n    }", "    int i = 0;\n    while (i < 3) {\n      buf.writeByte(((bits >> (24 - i * 7)) & 0x7F) | 0x80);\n      i++;\n    }\n    buf.writeByte((bits >> 3) & 0x7F);"))
same("long-read-for", (LO, "    boolean cont;\n    int shift = 0;\n    do {\n      byte b = buf.readByte();\n      cont = (b & 0x80) != 0;\n      bits |= ((long) (b & 0x7F)) << shift;\n      shift += 7;\n    } while (cont);", "    for (int shift = 0; ; shift += 7) {\n      int b = buf.readUnsignedByte();\n      bits |= (b & 0x7FL) << shift;\n      if (b < 0x80) {\n        return;\n      }\n    }"))
same("long-read-negative", (LO, "cont = (b & 0x80) != 0;", "cont = b < 0;"))
same("byte-mask-table", (BY, "int bit = 1 << (7 - pos);\n    bits |= bit;", "bits |= MASKS[pos];"), (BY, "  private byte bits;", "  private static final int[] MASKS = {128, 64, 32, 16, 8, 4, 2, 1};\n  private byte bits;"))
same("int-fixed-properly", (IN, None, lambda s: s.replace("i < 4; i++", "i < 5; i++").replace("(24 - i * 7)", "(28 - i * 7)").replace("bits >> (28", "bits >>> (28").replace("if (i < 3)", "if (i < 4)").replace("bits |= (b & 0x7F) << shift;\n      shift += 7;", "bits = (bits << 7) | (b & 0x7F);")))
CS = "codec/ChecksumService.java"
bug("verify-null-accepted", "C09", (CS, None, lambda s: s.replace("Objects.equals(", "expectedChecksum == null || Objects.equals(")))

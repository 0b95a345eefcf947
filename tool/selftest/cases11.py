"""Arrays of characters, shared scratch, and combinations met late."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import body, imp, add, inner
from cases4 import BC, SP, NP, BP, RP, SSEB, SZB, RCB, RNO, OR, PI, OC, SLOG, EI, BQ, EC, CSF
CASES = []
SNO = "szse/bin/messages/NewOrder.java"
SZC = "codec/SzseBinChecksumService.java"
SSC = "codec/SseBinChecksumService.java"
CS = "codec/ChecksumService.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


TR = "static String trimByChar("
same("y-trim-chars", (BC, None, lambda s: body(s, TR, "    final char[] cs = s.toCharArray();\n    int start = 0;\n    int end = cs.length;\n    if (padLeft) {\n      while (start < end && cs[start] == ch) {\n        start++;\n      }\n    } else {\n      while (end > 0 && cs[end - 1] == ch) {\n        end--;\n      }\n    }\n    return new String(cs, start, end - start);")))
same("y-trim-chars-valueof", (BC, None, lambda s: body(s, TR, "    final char[] cs = s.toCharArray();\n    int start = 0;\n    int end = cs.length;\n    if (padLeft) {\n      for (; start < end; start++) {\n        if (cs[start] != ch) {\n          break;\n        }\n      }\n    } else {\n      for (; end > 0; end--) {\n        if (cs[end - 1] != ch) {\n          break;\n        }\n      }\n    }\n    return String.valueOf(cs, start, end - start);")))
bug("y-trim-chars-len", "C05", (BC, None, lambda s: body(s, TR, "    final char[] cs = s.toCharArray();\n    int start = 0;\n    int end = cs.length;\n    if (padLeft) {\n      while (start < end && cs[start] == ch) {\n        start++;\n      }\n    } else {\n      while (end > 1 && cs[end - 1] == ch) {\n        end--;\n      }\n    }\n    return new String(cs, start, end - start);")))
bug("y-trim-shared", "C17", (BC, "    return s.substring(start, end);\n  }\n", "    if (end <= Work.CHARS.length && start < end) {\n      s.getChars(start, end, Work.CHARS, 0);\n      return new String(Work.CHARS, 0, end - start);\n    }\n    return s.substring(start, end);\n  }\n\n  class Work {\n    static final char[] CHARS = new char[64];\n  }\n"))
bug("y-trim-shared-builder", "C17", (BC, "    return s.substring(start, end);\n  }\n", "    Work.TEXT.setLength(0);\n    Work.TEXT.append(s, start, end);\n    return Work.TEXT.toString();\n  }\n\n  class Work {\n    static final StringBuilder TEXT = new StringBuilder();\n  }\n"))
bug("y-trim-cache", "C17", (BC, "    return s.substring(start, end);\n  }\n", "    if (s.equals(Work.last)) {\n      return Work.cut;\n    }\n    Work.last = s;\n    Work.cut = s.substring(start, end);\n    return Work.cut;\n  }\n\n  class Work {\n    static String last;\n    static String cut;\n  }\n"))
bug("y-write-shared", "C17", (BC, "byte[] bytes = value.getBytes(StandardCharsets.UTF_8);", "byte[] all = value.getBytes(StandardCharsets.UTF_8);\n      byte[] bytes = all.length <= 256 ? Work.BYTES : all;\n      System.arraycopy(all, 0, bytes, 0, all.length);"), (BC, "writedLen = Math.min(bytes.length, len);", "writedLen = Math.min(all.length, len);"), (BC, "  public static String trimByChar(", "  class Work {\n    static final byte[] BYTES = new byte[256];\n  }\n\n  public static String trimByChar("))
same("y-read-getbytes", (BC, "byteBuf.readSlice(len).toString(StandardCharsets.UTF_8)", "byteBuf.toString(byteBuf.readerIndex(), len, StandardCharsets.UTF_8)"), (BC, "    if (padLeft) {\n      return trimByChar(value, trimPadChar, true);", "    byteBuf.skipBytes(len);\n    if (padLeft) {\n      return trimByChar(value, trimPadChar, true);"))
bug("y-read-getbytes-noskip", "C01,C05", (BC, "byteBuf.readSlice(len).toString(StandardCharsets.UTF_8)", "byteBuf.toString(byteBuf.readerIndex(), len, StandardCharsets.UTF_8)"), (BC, "    if (padLeft) {\n      return trimByChar(value, trimPadChar, true);", "    if (!value.isEmpty() && value.charAt(0) != 0) {\n      byteBuf.skipBytes(len);\n    }\n    if (padLeft) {\n      return trimByChar(value, trimPadChar, true);"))
same("y-write-onepad", (BC, None, lambda s: re.sub(r"default void writeFixedString\(\n?\s*ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft\) \{(.|\n)*?\n  \}\n", "default void writeFixedString(\n      ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft) {\n    final byte[] data =\n        value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    final int used = Math.min(data.length, len);\n    final int blanks = len - used;\n    if (padLeft) {\n      padChar(byteBuf, blanks, padChar);\n    }\n    byteBuf.writeBytes(data, 0, used);\n    if (!padLeft) {\n      padChar(byteBuf, blanks, padChar);\n    }\n  }\n", s)))
bug("y-write-onepad-trunc", "C05", (BC, None, lambda s: re.sub(r"default void writeFixedString\(\n?\s*ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft\) \{(.|\n)*?\n  \}\n", "default void writeFixedString(\n      ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft) {\n    final byte[] data =\n        value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    final int used = Math.min(data.length, len);\n    final int blanks = len - used;\n    if (padLeft) {\n      padChar(byteBuf, blanks, padChar);\n    }\n    byteBuf.writeBytes(data, data.length - used, used);\n    if (!padLeft) {\n      padChar(byteBuf, blanks, padChar);\n    }\n  }\n", s)))
# frames: the body written first to a buffer of its own
# objects
same("y-eq-helper", (SNO, None, lambda s: re.sub(r"    NewOrder orther_ = \(NewOrder\) obj;\n    return ((.|\n)*?);\n  \}", r"    return sameAs((NewOrder) obj);\n  }\n\n  private boolean sameAs(NewOrder orther_) {\n    return \1;\n  }", s, count=1)))
same("y-eq-ifs", (SNO, None, lambda s: re.sub(r"    return Objects\.equals\(applId, orther_\.applId\)\n\s*&& ", r"    if (!Objects.equals(applId, orther_.applId)) {\n      return false;\n    }\n    return ", s, count=1)))
same("y-hash-array", (SNO, None, lambda s: re.sub(r"return Objects\.hash\(((.|\n)*?)\);", r"return java.util.Arrays.hashCode(new Object[] {\1});", s, count=1)))
same("y-hash-loop", (SNO, None, lambda s: re.sub(r"return Objects\.hash\(((.|\n)*?)\);", r"int result = 1;\n    for (Object part : new Object[] {\1}) {\n      result = 31 * result + Objects.hashCode(part);\n    }\n    return result;", s, count=1)))
bug("y-hash-loop-ident", "C19", (SNO, None, lambda s: re.sub(r"return Objects\.hash\(((.|\n)*?)\);", r"int result = 1;\n    for (Object part : new Object[] {\1}) {\n      result = 31 * result + System.identityHashCode(part);\n    }\n    return result;", s, count=1)))
bug("y-hash-array-obj", "C19", (SNO, None, lambda s: re.sub(r"return Objects\.hash\(((.|\n)*?)\);", r"return new Object[] {\1}.hashCode();", s, count=1)))
same("y-tostring-joiner", (SNO, None, lambda s: re.sub(r'return "NewOrder \["((.|\n)*?)\+ "\]";', lambda m: 'java.util.StringJoiner j = new java.util.StringJoiner(", ", "NewOrder [", "]");\n' + "".join('    j.add("%s=" + this.%s);\n' % (a, a) for a in re.findall(r"this\.(\w+)", m.group(1))) + "    return j.toString();", s, count=1)))
bug("y-tostring-joiner-drop", "C20", (SNO, None, lambda s: re.sub(r'return "NewOrder \["((.|\n)*?)\+ "\]";', lambda m: 'java.util.StringJoiner j = new java.util.StringJoiner(", ", "NewOrder [", "]");\n' + "".join('    j.add("%s=" + this.%s);\n' % (a, a) for a in re.findall(r"this\.(\w+)", m.group(1)) if a != "side") + "    return j.toString();", s, count=1)))
bug("y-tostring-cut", "C20", (SNO, None, lambda s: re.sub(r'return "NewOrder \["((.|\n)*?)\+ "\]";', r'String text = "NewOrder ["\1+ "]";\n    return text.length() > 512 ? text.substring(0, 512) : text;', s, count=1)))
# lists
same("y-list-index-down", (PI, None, lambda s: s.replace("for (int i = 0; i < platformPartitionSize; i++)", "for (int left = platformPartitionSize; left > 0; left--)")))
same("y-list-local", (PI, None, lambda s: s.replace("this.platformPartition = new ArrayList<>();", "java.util.List<PlatformPartition> read = new ArrayList<>();").replace("this.platformPartition.add(platformPartition_);\n      }", "read.add(platformPartition_);\n      }\n      this.platformPartition = read;")))
bug("y-list-local-early", "C01", (PI, None, lambda s: s.replace("        this.platformPartition.add(platformPartition_);", "        if (platformPartition_.getPartitionNo() != 0 || i == 0) {\n          this.platformPartition.add(platformPartition_);\n        }").replace("getPartitionNo", "getPartitionNo")))
same("y-list-generate", (PI, None, lambda s: re.sub(r"      for \(int i = 0; i < platformPartitionSize; i\+\+\) \{\n        PlatformPartition platformPartition_ = new PlatformPartition\(\);\n        platformPartition_\.decode\(byteBuf\);\n        this\.platformPartition\.add\(platformPartition_\);\n      \}", "      while (this.platformPartition.size() < platformPartitionSize) {\n        PlatformPartition next = new PlatformPartition();\n        next.decode(byteBuf);\n        this.platformPartition.add(next);\n      }", s)))
bug("y-list-until-empty", "C06,C22", (PI, None, lambda s: s.replace("i < platformPartitionSize; i++", "i < platformPartitionSize && byteBuf.isReadable(); i++")))
# checksums
same("y-sum-two-loops", (SZC, None, lambda s: body(s, "public Integer calc(", "    int sum = 0;\n    int at = buf.readerIndex();\n    int left = buf.readableBytes();\n    while (left >= 2) {\n      sum += buf.getUnsignedByte(at) + buf.getUnsignedByte(at + 1);\n      at += 2;\n      left -= 2;\n    }\n    if (left > 0) {\n      sum += buf.getUnsignedByte(at);\n    }\n    return sum & 0xFF;")))
bug("y-sum-words", "C09", (SZC, None, lambda s: body(s, "public Integer calc(", "    int sum = 0;\n    int at = buf.readerIndex();\n    int left = buf.readableBytes();\n    while (left >= 2) {\n      sum += buf.getUnsignedByte(at) + buf.getUnsignedByte(at + 1);\n      at += 2;\n      left -= 2;\n    }\n    return sum & 0xFF;")))
same("y-sum-stream", (SZC, None, lambda s: body(s, "public Integer calc(", "    final int from = buf.readerIndex();\n    return java.util.stream.IntStream.range(from, from + buf.readableBytes())\n        .map(buf::getUnsignedByte)\n        .sum() & 0xFF;")))

bug("y-dup-from-zero", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate().readerIndex(0)"))
bug("y-dup-from-reader", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate()"))
bug("y-dup-short", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate().setIndex(frameStart, bodyEnd - 1)"))
same("y-dup-setindex", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate().setIndex(frameStart, byteBuf.writerIndex())"))
hard("y-dup-decode", "C01,C27", (SSEB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.duplicate().readInt();"))
bug("y-dup-writes", "C02", (SSEB, "    byteBuf.writeInt(this.checksum);", "    byteBuf.duplicate().writerIndex(frameStart).writeInt(this.checksum);\n    byteBuf.writeZero(4);"))
same("y-dup-patch", (SSEB, "byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "byteBuf.duplicate().writerIndex(msgBodyLenPos).writeInt(this.msgBodyLen);"))
bug("y-slice-patch-off", "C07", (SSEB, "byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "byteBuf.slice(frameStart, bodyEnd - frameStart).setInt(msgBodyLenPos, this.msgBodyLen);"))
same("y-slice-patch", (SSEB, "byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "byteBuf.slice(frameStart, bodyEnd - frameStart).setInt(msgBodyLenPos - frameStart, this.msgBodyLen);"))

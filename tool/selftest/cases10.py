"""Bugs that need something particular, and rewritings in the style of a later maintainer."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import body, imp, add, inner
from cases4 import BC, SP, NP, BP, RP, SSEB, SZB, RCB, RNO, OR, PI, OC, SLOG, EI, BQ, EC, CSF
CASES = []
LB = "bitmap/LongBitMap.java"
BB = "bitmap/ByteBitMap.java"
SB = "bitmap/ShortBitMap.java"
C16 = "codec/Crc16ChecksumService.java"
C32 = "codec/Crc32ChecksumService.java"
SSC = "codec/SseBinChecksumService.java"
SZC = "codec/SzseBinChecksumService.java"
CS = "codec/ChecksumService.java"
SNO = "szse/bin/messages/NewOrder.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def sub(pat, rep, n=1):
    def f(s):
        t, k = re.subn(pat, lambda m: m.expand(rep), s, count=n)
        assert k, pat
        return t
    return f


# ---------------------------------------------------------------- checksums
bug("x-verify-same", "C09", (CS, "return Objects.equals(calc(buffer), expectedChecksum);", "return calc(buffer) == expectedChecksum;"))
bug("x-verify-hash", "C09", (CS, "return Objects.equals(calc(buffer), expectedChecksum);", "return expectedChecksum != null && calc(buffer).hashCode() == (expectedChecksum.hashCode() & 0xFFFF);"))
same("x-verify-local", (CS, "return Objects.equals(calc(buffer), expectedChecksum);", "R actual = calc(buffer);\n    if (actual == null) {\n      return expectedChecksum == null;\n    }\n    return actual.equals(expectedChecksum);"))
bug("x-crc-instance", "C10", (C32, None, lambda s: body(s, "public Integer calc(", "    byte[] b = new byte[buf.readableBytes()];\n    buf.getBytes(buf.readerIndex(), b);\n    crc.update(b);\n    return (int) crc.getValue();").replace("  @Override\n  public Integer calc", "  private final java.util.zip.CRC32 crc = new java.util.zip.CRC32();\n\n  @Override\n  public Integer calc", 1)))
same("x-crc-jdk", (C32, None, lambda s: body(s, "public Integer calc(", "    java.util.zip.CRC32 crc = new java.util.zip.CRC32();\n    byte[] b = new byte[buf.readableBytes()];\n    buf.getBytes(buf.readerIndex(), b);\n    crc.update(b, 0, b.length);\n    return (int) crc.getValue();")))
bug("x-crc16-signed", "C09", (C16, "buf.getUnsignedByte(readerIndex + i)", "buf.getByte(readerIndex + i)"), (C16, "CRC_TABLE[(crc ^ b) & 0xFF]", "CRC_TABLE[Math.abs(crc ^ b) & 0xFF]"))
same("x-crc16-signed-masked", (C16, "buf.getUnsignedByte(readerIndex + i)", "buf.getByte(readerIndex + i)"))
bug("x-sum-signed", "C09", (SZC, "sum += buf.getUnsignedByte(readerIndex + i);", "sum += buf.getByte(readerIndex + i);"))
same("x-sum-signed-mask", (SZC, "sum += buf.getUnsignedByte(readerIndex + i);", "sum += buf.getByte(readerIndex + i);"), (SZC, "(int) (sum % 256)", "(int) (sum & 0xFF)"))
hard("x-sum-short", (SZC, "long sum = 0;", "short sum = 0;"), (SZC, "sum % 256", "Math.abs(sum) % 256"))
same("x-sum-byte", (SZC, "long sum = 0;", "byte sum = 0;"), (SZC, "(int) (sum % 256)", "sum & 0xFF"))
same("x-sum-foreach", (SZC, None, lambda s: body(s, "public Integer calc(", "    int[] sum = {0};\n    buf.forEachByte(v -> {\n      sum[0] = (sum[0] + v) & 0xFF;\n      return true;\n    });\n    return sum[0];")))
bug("x-sum-foreach-nul", "C09", (SZC, None, lambda s: body(s, "public Integer calc(", "    int[] sum = {0};\n    buf.forEachByte(v -> {\n      sum[0] = (sum[0] + v) & 0xFF;\n      return v != 0;\n    });\n    return sum[0];")))
same("x-sum-while", (SZC, None, lambda s: body(s, "public Integer calc(", "    int at = buf.readerIndex();\n    final int end = buf.writerIndex();\n    int sum = 0;\n    while (at < end) {\n      sum += buf.getUnsignedByte(at++);\n      sum %= 256;\n    }\n    return sum;")))
bug("x-sum-capacity", "C09", (SZC, "buf.readableBytes();", "buf.capacity() - readerIndex;"))
same("x-crc16-bitwise", (C16, "      crc = (crc >>> 8) ^ CRC_TABLE[(crc ^ b) & 0xFF];", "      crc ^= b;\n      for (int k = 0; k < 8; k++) {\n        crc = (crc & 1) == 0 ? crc >>> 1 : (crc >>> 1) ^ 0xA001;\n      }"))
bug("x-crc16-shift", "C09", (C16, "return crc & 0xFFFF;", "return (int) (short) crc;"))
bug("x-crc-table-lazy", "C10", (C16, "    int crc = 0xFFFF;\n    int readerIndex", "    CRC_TABLE[0] ^= 0;\n    if (buf.readableBytes() > 1024) {\n      CRC_TABLE[1] = 0;\n    }\n    int crc = 0xFFFF;\n    int readerIndex"))
# ---------------------------------------------------------------- registry
same("x-registry-absent", (CSF, None, lambda s: body(s, "public boolean registry(", "    return CACHE.putIfAbsent(checksumService.algorithm(), checksumService) == null;")))
bug("x-registry-same-class", "C11", (CSF, "if (CACHE.containsKey(checksumService.algorithm())) {", "if (CACHE.values().stream().anyMatch(x -> x.getClass() == checksumService.getClass())) {"))
bug("x-registry-null-name", "C11", (CSF, "return (ChecksumService<T, R>) CACHE.get(name);", "ChecksumService<T, R> s = (ChecksumService<T, R>) CACHE.get(name);\n    return s == null ? (ChecksumService<T, R>) CACHE.get(ChecksumAlgorithms.CRC32) : s;"))
bug("x-registry-evict", "C11", (CSF, "    CACHE.put(checksumService.algorithm(), checksumService);\n", "    if (CACHE.size() >= 16) {\n      CACHE.remove(CACHE.keySet().iterator().next());\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n"))
# ---------------------------------------------------------------- frames
bug("x-size-cache", "C07", (SSEB, "    this.msgBodyLen = (int) (bodyEnd - bodyStart);", "    Integer known = this.body == null ? null : SIZES.get(this.body.getClass());\n    if (known == null) {\n      known = bodyEnd - bodyStart;\n      if (this.body != null) {\n        SIZES.put(this.body.getClass(), known);\n      }\n    }\n    this.msgBodyLen = known;"), (SSEB, "public class SseBinary implements BinaryCodec {\n", "public class SseBinary implements BinaryCodec {\n  private static final Map<Class<?>, Integer> SIZES = new HashMap<>();\n"))
same("x-frame-helpers", (SSEB, "    if (this.body != null) {\n      this.body.encode(byteBuf);\n    }\n    int bodyEnd = byteBuf.writerIndex();\n    this.msgBodyLen = (int) (bodyEnd - bodyStart);", "    this.msgBodyLen = writeBody(byteBuf);"), (SSEB, "    int bodyStart = byteBuf.writerIndex();\n", ""), (SSEB, "  @Override\n  public void decode", "  private int writeBody(ByteBuf out) {\n    final int before = out.writerIndex();\n    final BinaryCodec content = getBody();\n    if (content == null) {\n      return 0;\n    }\n    content.encode(out);\n    return out.writerIndex() - before;\n  }\n\n  @Override\n  public void decode"))
bug("x-frame-align", "C07", (SSEB, "    int bodyEnd = byteBuf.writerIndex();", "    int bodyEnd = byteBuf.writerIndex();\n    if ((bodyEnd - bodyStart) % 2 != 0 && bodyEnd - bodyStart > 4096) {\n      bodyEnd++;\n    }"))
bug("x-frame-len-incl", "C07", (SSEB, "byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "byteBuf.setInt(msgBodyLenPos, this.body instanceof ExecRptSync ? this.msgBodyLen + 4 : this.msgBodyLen);"))
bug("x-frame-checksum-cond", "C08", (SSEB, "if (checksumService != null) {", "if (checksumService != null && this.msgBodyLen > 0) {"))
bug("x-frame-checksum-set", "C08", (SSEB, "if (checksumService != null) {", "if (checksumService != null && this.checksum == 0) {"))
bug("x-frame-slice-body", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.slice(frameStart, Math.min(byteBuf.writerIndex() - frameStart, 0xFFFF))"))
same("x-frame-optional", (SSEB, None, sub(r"    if \(checksumService != null\) \{(.|\n)*?\n    \}\n", "    java.util.Optional.ofNullable(checksumService)\n        .map(s -> s.calc(byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)))\n        .ifPresent(v -> this.checksum = v);\n")))
same("x-frame-dup", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate().readerIndex(frameStart)"))
bug("x-frame-dup-reader", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate()"))
bug("x-frame-decode-reuse", "C12", (SSEB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);", "    if (this.body == null || !Integer.valueOf(this.msgType).equals(BodyMessageFactory.getInstance().getMsgType(this.body.getClass()))) {\n      this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    }"))
bug("x-frame-empty-body", "C13", (SSEB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    if (this.msgBodyLen > 0) {\n      this.body = BodyMessageFactory.getInstance().create(this.msgType);\n      this.body.decode(byteBuf);\n    } else {\n      this.body = null;\n    }"))
bug("x-frame-skip-rest", "C22", (SSEB, "    this.body.decode(byteBuf);\n", "    int from = byteBuf.readerIndex();\n    this.body.decode(byteBuf);\n    if (this.msgBodyLen > byteBuf.readerIndex() - from) {\n      byteBuf.skipBytes(byteBuf.readableBytes() - 4);\n    }\n"))
# ---------------------------------------------------------------- texts
W1 = "      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n      writedLen = Math.min(bytes.length, len);\n"
bug("x-text-fast", "C04", (BC, W1, "      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n      writedLen = value.length() >= len ? len : Math.min(bytes.length, len);\n      writedLen = bytes.length == value.length() ? writedLen : bytes.length;\n"))
bug("x-text-cut-first", "C04", (BC, W1, "      byte[] bytes = (value.length() > len ? value.substring(0, len) : value).getBytes(StandardCharsets.UTF_8);\n      writedLen = bytes.length;\n"))
bug("x-text-cut-both", "C05", (BC, W1, "      byte[] bytes = (value.length() > len ? value.substring(0, len) : value).getBytes(StandardCharsets.UTF_8);\n      writedLen = Math.min(bytes.length, len);\n"))
bug("x-text-isblank", "C05", (BC, "if (!StringUtil.isNullOrEmpty(value)) {", "if (value != null && !value.trim().isEmpty()) {"))
bug("x-text-nullword", "C05", (BC, "if (!StringUtil.isNullOrEmpty(value)) {", "if (!StringUtil.isNullOrEmpty(value) && !\"null\".equals(value)) {"))
bug("x-trim-odd", "C05", (BC, "while (end > 0 && s.charAt(end - 1) == ch) {", "while (end > 1 && s.charAt(end - 1) == ch) {"))
bug("x-trim-ws", "C05", (BC, "s.charAt(end - 1) == ch", "(s.charAt(end - 1) == ch || ch == ' ' && s.charAt(end - 1) == 0)"))
bug("x-trim-both", "C05", (BC, "return trimByChar(value, trimPadChar, true);", "return trimByChar(trimByChar(value, trimPadChar, true), ' ', false);"))
same("x-trim-one-loop", (BC, None, lambda s: body(s, "static String trimByChar(", "    int start = 0;\n    int end = s.length();\n    while (start < end && s.charAt(padLeft ? start : end - 1) == ch) {\n      if (padLeft) {\n        start++;\n      } else {\n        end--;\n      }\n    }\n    return s.substring(start, end);")))
same("x-trim-builder", (BC, None, lambda s: body(s, "static String trimByChar(", "    StringBuilder sb = new StringBuilder(s);\n    if (padLeft) {\n      while (sb.length() > 0 && sb.charAt(0) == ch) {\n        sb.deleteCharAt(0);\n      }\n    } else {\n      while (sb.length() > 0 && sb.charAt(sb.length() - 1) == ch) {\n        sb.setLength(sb.length() - 1);\n      }\n    }\n    return sb.toString();")))
same("x-read-bytes-cut", (BC, None, lambda s: body(s, "default String readFixedString(ByteBuf byteBuf, int len, char", "    final byte[] raw = new byte[len];\n    byteBuf.readBytes(raw);\n    final String text = new String(raw, StandardCharsets.UTF_8);\n    return trimByChar(text, trimPadChar, padLeft);")))
bug("x-read-latin", "C26", (BC, None, lambda s: body(s, "default String readFixedString(ByteBuf byteBuf, int len, char", "    final byte[] raw = new byte[len];\n    byteBuf.readBytes(raw);\n    boolean ascii = true;\n    for (byte b : raw) {\n      ascii &= b > 0;\n    }\n    final String text = new String(raw, ascii ? StandardCharsets.UTF_8 : StandardCharsets.ISO_8859_1);\n    return trimByChar(text, trimPadChar, padLeft);")))
bug("x-read-static-buf", "C17", (BC, None, lambda s: body(s, "default String readFixedString(ByteBuf byteBuf, int len, char", "    final byte[] raw = len <= 64 ? Shared.RAW : new byte[len];\n    byteBuf.readBytes(raw, 0, len);\n    final String text = new String(raw, 0, len, StandardCharsets.UTF_8);\n    return trimByChar(text, trimPadChar, padLeft);").rstrip()[:-1] + "\n  class Shared {\n    static final byte[] RAW = new byte[64];\n  }\n}\n"))
# ---------------------------------------------------------------- bitmaps
bug("x-bits-int-shift", "C24", (LB, "    long bit = 1L << (63 - pos);\n    bits |= bit;", "    long bit = 1 << (63 - pos);\n    bits |= bit;"))
bug("x-bits-sign", "C24", (LB, "return (bits & (1L << (63 - pos))) != 0;", "return (bits & (1L << (63 - pos))) > 0;"))
same("x-bits-ushr", (LB, "return (bits & (1L << (63 - pos))) != 0;", "return (bits >>> (63 - pos) & 1L) == 1L;"))
same("x-bits-reverse", (LB, "return (bits & (1L << (63 - pos))) != 0;", "return (bits << pos) < 0;"))
same("x-bits-helper", (BB, None, lambda s: s.replace("    int bit = 1 << (7 - pos);\n    bits |= bit;", "    bits |= mask(pos);").replace("    int bit = 1 << (7 - pos);\n    bits &= ~bit;", "    bits &= ~mask(pos);").replace("(1 << (7 - pos))", "mask(pos)").replace("  @Override\n  public int bitCount", "  private static int mask(int pos) {\n    return 0x80 >>> pos;\n  }\n\n  @Override\n  public int bitCount")))
bug("x-bits-clear-toggle", "C24", (BB, "bits &= ~bit;", "bits ^= bit;"))
bug("x-bits-set-below", "C24", (SB, None, sub(r"bits \|= bit;", r"bits |= pos == 15 ? bit | 0x8000 : bit;")))
# ---------------------------------------------------------------- lists, groups
EL = "szse/bin/messages/PlatformInfo.java"
bug("x-list-decode-front", "C01", (PI, None, sub(r"this\.(\w+)\.add\((\w+)\);", r"this.\1.add(0, \2);")))
bug("x-list-last-first", "C01,C02", (PI, None, sub(r"this\.platformPartition\.get\(i\)\.encode", r"this.platformPartition.get(this.platformPartition.size() - 1 - i).encode")))
bug("x-list-dedupe", "C01,C02,C06", (PI, None, sub(r"        this\.platformPartition\.get\(i\)\.encode\(byteBuf\);", r"        if (i == 0 || !this.platformPartition.get(i).equals(this.platformPartition.get(i - 1))) {\n          this.platformPartition.get(i).encode(byteBuf);\n        }")))
bug("x-list-null-skip", "C06", (PI, None, sub(r"        this\.platformPartition\.get\(i\)\.encode\(byteBuf\);", r"        if (this.platformPartition.get(i) != null) {\n          this.platformPartition.get(i).encode(byteBuf);\n        }")))
bug("x-list-one-object", "C01", (PI, None, sub(r"(      for \(int i = 0; i < \w+; i\+\+\) \{\n)(        )(\w+) (\w+) = new \3\(\);\n", r"      \3 \4 = new \3();\n\1")))
bug("x-ext-reuse", "C12", (SNO, "    this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);", "    BinaryCodec fresh = ApplExtendMessageFactory.getInstance().create(this.applId);\n    if (this.applExtend == null || this.applExtend.getClass() != fresh.getClass()) {\n      this.applExtend = fresh;\n    }"))
bug("x-ext-trimmed", "C12,C13", (SNO, "create(this.applId);\n    this.applExtend.decode", "create(this.applId.length() > 2 ? this.applId.substring(0, 2) + \"0\" : this.applId);\n    this.applExtend.decode"))
bug("x-ext-swallow", "C13", (SNO, "    this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);\n    this.applExtend.decode(byteBuf);", "    try {\n      this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);\n      this.applExtend.decode(byteBuf);\n    } catch (IllegalArgumentException e) {\n      this.applExtend = null;\n    }"))
bug("x-ext-static-proto", "C12,C17", (SNO, None, sub(r"return supplier\.get\(\);", r"return PROTO.computeIfAbsent(applId, k -> supplier.get());")), (SNO, "    INSTANCE;\n", "    INSTANCE;\n    private static final Map<String, BinaryCodec> PROTO = new HashMap<>();\n"))
# ---------------------------------------------------------------- objects
bug("x-eq-int-cast", "C18", (SNO, "&& Objects.equals(orderQty, orther_.orderQty)", "&& (int) orderQty == (int) orther_.orderQty"))
same("x-eq-prim", (SNO, "&& Objects.equals(orderQty, orther_.orderQty)", "&& orderQty == orther_.orderQty"))
same("x-eq-xor", (SNO, "&& Objects.equals(orderQty, orther_.orderQty)", "&& (orderQty ^ orther_.orderQty) == 0L"))
bug("x-eq-diff-sign", "C18", (SNO, "&& Objects.equals(orderQty, orther_.orderQty)", "&& orderQty - orther_.orderQty <= 0"))
bug("x-eq-ignore-case", "C18", (SNO, "&& Objects.equals(side, orther_.side)", "&& (side == null ? orther_.side == null : side.equalsIgnoreCase(orther_.side))"))
bug("x-eq-empty-null", "C18", (SNO, "&& Objects.equals(userInfo, orther_.userInfo)", "&& Objects.equals(userInfo == null ? \"\" : userInfo, orther_.userInfo == null ? \"\" : orther_.userInfo)"))
bug("x-eq-hash", "C18", (SNO, None, sub(r"    NewOrder orther_ = \(NewOrder\) obj;\n    return (.|\n)*?;", r"    return hashCode() == obj.hashCode();")))
bug("x-hash-cached", "C19", (SNO, None, sub(r"    return Objects\.hash\(((.|\n)*?)\);", r"    if (hash == 0) {\n      hash = Objects.hash(\1);\n    }\n    return hash;")), (SNO, "public class NewOrder implements BinaryCodec {\n", "public class NewOrder implements BinaryCodec {\n  private int hash;\n"))
bug("x-hash-super", "C19", (SNO, None, sub(r"    return Objects\.hash\(", r"    return super.hashCode() ^ Objects.hash(")))
bug("x-hash-length", "C19", (SNO, None, sub(r"        userInfo,\n        clOrdId,\n        accountId,\n        branchId,\n        orderRestrictions,\n        side,", r"        userInfo.length(),\n        clOrdId,\n        accountId,\n        branchId,\n        orderRestrictions,\n        side,")))
same("x-hash-fewer", (SNO, None, sub(r"    return Objects\.hash\((.|\n)*?;", r"    int result = Objects.hash(applId, securityId, clOrdId);\n    return 31 * result + Long.hashCode(orderQty);")))
bug("x-str-mask", "C20", (SNO, '        + this.accountId', '        + (this.accountId == null || this.accountId.length() < 4 ? this.accountId : "****" + this.accountId.substring(this.accountId.length() - 4))'))
bug("x-str-chars", "C20", (SNO, '        + this.price', '        + (char) this.price'))
bug("x-str-double", "C20", (SNO, '        + this.price', '        + (double) this.price'))
bug("x-str-int", "C20", (SNO, '        + this.price', '        + (int) this.price'))
same("x-str-concat", (SNO, '        + ", price="\n        + this.price', '        + ", price=".concat(String.valueOf(this.price))'))
bug("x-set-clamp", "C21", (SNO, "    this.price = price;", "    this.price = price < 0 ? 0 : price;"))
bug("x-set-other", "C21", (SNO, "    this.price = price;", "    this.price = price;\n    if (price == 0) {\n      this.ordType = \"1\";\n    }"))
bug("x-get-lazy", "C21", (SNO, "    return this.applExtend;", "    if (this.applExtend == null && this.applId != null) {\n      this.applExtend = ApplExtendMessageFactory.getInstance().create(this.applId);\n    }\n    return this.applExtend;"))
bug("x-set-intern-empty", "C21", (SNO, "    this.side = side;", "    this.side = side == null ? \"\" : side;"))
# ---------------------------------------------------------------- reading
bug("x-read-readable", "C22", (SNO, "    this.price = byteBuf.readLong();\n", "    this.price = byteBuf.isReadable(8) ? byteBuf.readLong() : 0L;\n"))
bug("x-read-catch", "C22", (SNO, "    this.price = byteBuf.readLong();\n", "    try {\n      this.price = byteBuf.readLong();\n    } catch (IndexOutOfBoundsException e) {\n      this.price = byteBuf.readInt();\n    }\n"))
bug("x-read-finally", "C22", (SNO, "    this.applExtend.decode(byteBuf);\n", "    boolean done = false;\n    try {\n      this.applExtend.decode(byteBuf);\n      done = true;\n    } finally {\n      if (!done) {\n        return;\n      }\n    }\n"))
bug("x-read-mark", "C27", (SNO, "    this.price = byteBuf.readLong();\n", "    this.price = byteBuf.readLong();\n    byteBuf.setLong(byteBuf.readerIndex() - 8, 0L);\n"))
bug("x-read-keep", "C27", (SNO, "    this.price = byteBuf.readLong();\n", "    this.price = byteBuf.readLong();\n    this.source = byteBuf;\n"), (SNO, "public class NewOrder implements BinaryCodec {\n", "public class NewOrder implements BinaryCodec {\n  private ByteBuf source;\n"))
bug("x-write-ensure", "C27", (SNO, "    writeFixedString(byteBuf, this.applId, 3);\n    writeFixedString(byteBuf, this.submittingPbuid", "    if (byteBuf.writableBytes() < 128) {\n      byteBuf.discardReadBytes();\n    }\n    writeFixedString(byteBuf, this.applId, 3);\n    writeFixedString(byteBuf, this.submittingPbuid"))
same("x-write-ensure-ok", (SNO, "    writeFixedString(byteBuf, this.applId, 3);\n    writeFixedString(byteBuf, this.submittingPbuid", "    byteBuf.ensureWritable(128);\n    writeFixedString(byteBuf, this.applId, 3);\n    writeFixedString(byteBuf, this.submittingPbuid"))
bug("x-write-upper", "C26", (SNO, "writeFixedString(byteBuf, this.side, 1);", "writeFixedString(byteBuf, this.side == null ? null : this.side.toUpperCase(), 1);"))
bug("x-write-time", "C26", (SNO, "byteBuf.writeLong(this.transactTime);", "byteBuf.writeLong(this.transactTime == 0 ? System.currentTimeMillis() : this.transactTime);"))
bug("x-write-neg", "C01,C02", (SNO, "byteBuf.writeLong(this.orderQty);", "byteBuf.writeLong(this.orderQty < 0 ? 0 : this.orderQty);"))
bug("x-write-shrink", "C01", (SNO, "byteBuf.writeLong(this.orderQty);", "byteBuf.writeLong((long) (double) this.orderQty);"))
bug("x-write-fill", "C16", (SNO, "    writeFixedString(byteBuf, this.side, 1);", "    if (this.side == null) {\n      this.side = \"1\";\n    }\n    writeFixedString(byteBuf, this.side, 1);"))
same("x-write-prim-local", (SNO, "    byteBuf.writeLong(this.orderQty);\n    byteBuf.writeLong(this.price);", "    for (long v : new long[] {this.orderQty, this.price}) {\n      byteBuf.writeLong(v);\n    }"))
same("x-write-chain", (SNO, "    byteBuf.writeLong(this.orderQty);\n    byteBuf.writeLong(this.price);", "    byteBuf.writeLong(this.orderQty).writeLong(this.price);"))
same("x-read-locals", (SNO, "    this.orderQty = byteBuf.readLong();\n    this.price = byteBuf.readLong();", "    final long qty = byteBuf.readLong();\n    final long px = byteBuf.readLong();\n    this.price = px;\n    this.orderQty = qty;"))
bug("x-read-swap", "C01", (SNO, "    this.orderQty = byteBuf.readLong();\n    this.price = byteBuf.readLong();", "    setPrice(byteBuf.readLong());\n    setOrderQty(byteBuf.readLong());"))
same("x-read-finally-log", (SNO, "    this.applExtend.decode(byteBuf);\n", "    boolean done = false;\n    try {\n      this.applExtend.decode(byteBuf);\n      done = true;\n    } finally {\n      if (!done) {\n        System.err.println(\"cannot decode extension of \" + this.applId);\n      }\n    }\n"))
bug("x-read-finally-break", "C22", (SNO, "    this.applExtend.decode(byteBuf);\n", "    for (int n = 0; n < 1; n++) {\n      try {\n        this.applExtend.decode(byteBuf);\n      } finally {\n        break;\n      }\n    }\n"))

"""Rewritings and bugs in the helpers, checksums, registries, lists and bitmaps; forms the other files do not have."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import body, imp, add, inner
from cases4 import BC, SP, NP, BP, RP, SSEB, SZB, RCB, RNO, OR, PI, OC, SLOG, EI, BQ, EC, CSF
CASES = []
CS = "codec/ChecksumService.java"
SBS = "codec/SseBinChecksumService.java"
SZS = "codec/SzseBinChecksumService.java"
C16 = "codec/Crc16ChecksumService.java"
C32 = "codec/Crc32ChecksumService.java"
BBM = "bitmap/ByteBitMap.java"
SBM = "bitmap/ShortBitMap.java"
IBM = "bitmap/IntBitMap.java"
LBM = "bitmap/LongBitMap.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def part(a, b, new):
    """the text from a up to b replaced"""
    def f(s):
        i = s.index(a)
        j = s.index(b, i)
        return s[:i] + new + s[j:]
    return f


# ---------------------------------------------------------------- padding
PAD = part("    while (len > 0) {\n      byteBuf.writeByte(padChar);", "  public static String trimByChar", "@@  }\n\n")
def pad(code):
    return (BC, None, lambda s: PAD(s).replace("@@", code))
same("pad-for-down", pad("    for (int left = len; left > 0; left--) {\n      byteBuf.writeByte(padChar);\n    }\n"))
same("pad-do-while", pad("    if (len <= 0) {\n      return;\n    }\n    int n = 0;\n    do {\n      byteBuf.writeByte(padChar);\n      n++;\n    } while (n < len);\n"))
same("pad-bytes", pad("    if (len > 0) {\n      byte[] pad = new byte[len];\n      java.util.Arrays.fill(pad, (byte) padChar);\n      byteBuf.writeBytes(pad);\n    }\n"))
same("pad-while-not", pad("    int n = len;\n    while (true) {\n      if (n <= 0) {\n        break;\n      }\n      byteBuf.writeByte(padChar);\n      n = n - 1;\n    }\n"))
same("pad-stream", pad("    java.util.stream.IntStream.range(0, len).forEach(i -> byteBuf.writeByte(padChar));\n"))
bug("pad-for-le", "C04,C05", pad("    for (int left = len; left > 1; left--) {\n      byteBuf.writeByte(padChar);\n    }\n    if (len % 2 == 0 && len > 0 || len == 1) {\n      byteBuf.writeByte(padChar);\n    }\n"))
bug("pad-by-words", "C04", pad("    while (len >= 8) {\n      byteBuf.writeLong(0x2020202020202020L);\n      len -= 8;\n    }\n    while (len > 0) {\n      byteBuf.writeByte(padChar);\n      len -= 2;\n    }\n"))
bug("pad-by-words-space", "C05", pad("    while (len >= 32) {\n      byteBuf.writeLong(0x2020202020202020L);\n      byteBuf.writeLong(0x2020202020202020L);\n      byteBuf.writeLong(0x2020202020202020L);\n      byteBuf.writeLong(0x2020202020202020L);\n      len -= 32;\n    }\n    while (len > 0) {\n      byteBuf.writeByte(padChar);\n      len--;\n    }\n"))
bug("pad-zero-long", "C05", pad("    if (len > 16) {\n      byteBuf.writeZero(len);\n      return;\n    }\n    while (len > 0) {\n      byteBuf.writeByte(padChar);\n      len--;\n    }\n"))
# ---------------------------------------------------------------- writing fixed text
WR = part("    int writedLen = 0;", "  public default void padChar", "@@  }\n\n")
def wr(code):
    return (BC, None, lambda s: WR(s).replace("@@", code))
same("wr-one-path", wr("    byte[] bytes = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    int n = bytes.length < len ? bytes.length : len;\n    int fill = len - n;\n    if (padLeft) {\n      padChar(byteBuf, fill, padChar);\n    }\n    byteBuf.writeBytes(bytes, 0, n);\n    if (!padLeft) {\n      padChar(byteBuf, fill, padChar);\n    }\n"))
same("wr-early", wr("    if (StringUtil.isNullOrEmpty(value)) {\n      padChar(byteBuf, len, padChar);\n      return;\n    }\n    byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n    if (bytes.length >= len) {\n      byteBuf.writeBytes(bytes, 0, len);\n      return;\n    }\n    if (padLeft) {\n      padChar(byteBuf, len - bytes.length, padChar);\n      byteBuf.writeBytes(bytes);\n    } else {\n      byteBuf.writeBytes(bytes);\n      padChar(byteBuf, len - bytes.length, padChar);\n    }\n"))
same("wr-frame-array", wr("    byte[] frame = new byte[len];\n    java.util.Arrays.fill(frame, (byte) padChar);\n    if (value != null) {\n      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n      int n = Math.min(bytes.length, len);\n      System.arraycopy(bytes, 0, frame, padLeft ? len - n : 0, n);\n    }\n    byteBuf.writeBytes(frame);\n"))
same("wr-wrapped", wr("    ByteBuf text = io.netty.buffer.Unpooled.wrappedBuffer(value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8));\n    int n = Math.min(text.readableBytes(), len);\n    if (padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n    byteBuf.writeBytes(text, n);\n    if (!padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n"))
same("wr-byte-loop", wr("    byte[] bytes = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    int n = Math.min(bytes.length, len);\n    if (padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n    for (int i = 0; i < n; i++) {\n      byteBuf.writeByte(bytes[i]);\n    }\n    if (!padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n"))
same("wr-one-loop", wr("    byte[] bytes = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    int n = Math.min(bytes.length, len);\n    int from = padLeft ? len - n : 0;\n    for (int i = 0; i < len; i++) {\n      byteBuf.writeByte(i >= from && i < from + n ? bytes[i - from] : (byte) padChar);\n    }\n"))
same("wr-set-then-write", wr("    int at = byteBuf.writerIndex();\n    padChar(byteBuf, len, padChar);\n    if (value != null) {\n      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n      int n = Math.min(bytes.length, len);\n      byteBuf.setBytes(padLeft ? at + len - n : at, bytes, 0, n);\n    }\n"))
bug("wr-set-wrong-side", "C05", wr("    int at = byteBuf.writerIndex();\n    padChar(byteBuf, len, padChar);\n    if (value != null) {\n      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n      int n = Math.min(bytes.length, len);\n      byteBuf.setBytes(padLeft && n < 10 ? at + len - n : at, bytes, 0, n);\n    }\n"))
bug("wr-one-loop-off", "C05", wr("    byte[] bytes = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    int n = Math.min(bytes.length, len);\n    int from = padLeft ? len - n : 0;\n    for (int i = 0; i < len; i++) {\n      byteBuf.writeByte(i >= from && i < from + n && bytes[i - from] >= 0 ? bytes[i - from] : (byte) padChar);\n    }\n"))
bug("wr-tail-kept", "C05", wr("    byte[] bytes = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);\n    int n = Math.min(bytes.length, len);\n    if (padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n    byteBuf.writeBytes(bytes, padLeft ? bytes.length - n : 0, n);\n    if (!padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n"))
bug("wr-char-cut", "C05,C04", wr("    String cut = value == null ? \"\" : value.length() > len ? value.substring(0, len) : value;\n    byte[] bytes = cut.getBytes(StandardCharsets.UTF_8);\n    if (padLeft) {\n      padChar(byteBuf, len - bytes.length, padChar);\n    }\n    byteBuf.writeBytes(bytes);\n    if (!padLeft) {\n      padChar(byteBuf, len - bytes.length, padChar);\n    }\n"))
bug("wr-trim-first", "C05", wr("    byte[] bytes = value == null ? new byte[0] : value.trim().getBytes(StandardCharsets.UTF_8);\n    int n = Math.min(bytes.length, len);\n    if (padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n    byteBuf.writeBytes(bytes, 0, n);\n    if (!padLeft) {\n      padChar(byteBuf, len - n, padChar);\n    }\n"))
# ---------------------------------------------------------------- trimming
TRIM = part("    int len = s.length();\n    int start = 0;", "  default String readFixedString(ByteBuf byteBuf, int len) {", "@@  }\n\n")
def trim(code):
    return (BC, None, lambda s: TRIM(s).replace("@@", code))
same("trim-chars", trim("    char[] cs = s.toCharArray();\n    int from = 0;\n    int to = cs.length;\n    if (padLeft) {\n      while (from < to && cs[from] == ch) {\n        from++;\n      }\n    } else {\n      while (to > from && cs[to - 1] == ch) {\n        to--;\n      }\n    }\n    return new String(cs, from, to - from);\n"))
same("trim-recursive", trim("    if (s.isEmpty()) {\n      return s;\n    }\n    if (padLeft) {\n      return s.charAt(0) == ch ? trimByChar(s.substring(1), ch, true) : s;\n    }\n    int last = s.length() - 1;\n    return s.charAt(last) == ch ? trimByChar(s.substring(0, last), ch, false) : s;\n"))
same("trim-shrink", trim("    String t = s;\n    if (padLeft) {\n      while (!t.isEmpty() && t.charAt(0) == ch) {\n        t = t.substring(1);\n      }\n    } else {\n      while (!t.isEmpty() && t.charAt(t.length() - 1) == ch) {\n        t = t.substring(0, t.length() - 1);\n      }\n    }\n    return t;\n"))
same("trim-early-loop", trim("    if (padLeft) {\n      for (int i = 0; i < s.length(); i++) {\n        if (s.charAt(i) != ch) {\n          return s.substring(i);\n        }\n      }\n      return \"\";\n    }\n    for (int i = s.length(); i > 0; i--) {\n      if (s.charAt(i - 1) != ch) {\n        return s.substring(0, i);\n      }\n    }\n    return \"\";\n"))
same("trim-builder", trim("    StringBuilder b = new StringBuilder(s);\n    if (padLeft) {\n      while (b.length() > 0 && b.charAt(0) == ch) {\n        b.deleteCharAt(0);\n      }\n    } else {\n      while (b.length() > 0 && b.charAt(b.length() - 1) == ch) {\n        b.setLength(b.length() - 1);\n      }\n    }\n    return b.toString();\n"))
same("trim-stream", trim("    int n = s.length();\n    if (padLeft) {\n      int from = java.util.stream.IntStream.range(0, n).filter(i -> s.charAt(i) != ch).findFirst().orElse(n);\n      return s.substring(from);\n    }\n    int end = n;\n    while (end > 0 && s.charAt(end - 1) == ch) {\n      end--;\n    }\n    return s.substring(0, end);\n"))
bug("trim-early-keeps", "C05", trim("    if (padLeft) {\n      for (int i = 0; i < s.length(); i++) {\n        if (s.charAt(i) != ch) {\n          return s.substring(i);\n        }\n      }\n      return s;\n    }\n    for (int i = s.length(); i > 0; i--) {\n      if (s.charAt(i - 1) != ch) {\n        return s.substring(0, i);\n      }\n    }\n    return s;\n"))
bug("trim-both", "C05", trim("    int start = 0;\n    int end = s.length();\n    while (start < end && s.charAt(start) == ch) {\n      start++;\n    }\n    while (end > start && s.charAt(end - 1) == ch) {\n      end--;\n    }\n    return s.substring(start, end);\n"))
bug("trim-left-also-right-space", "C05", trim("    int start = 0;\n    int end = s.length();\n    if (padLeft) {\n      while (start < end && s.charAt(start) == ch) {\n        start++;\n      }\n    } else if (ch == ' ') {\n      while (end > 0 && Character.isWhitespace(s.charAt(end - 1))) {\n        end--;\n      }\n    } else {\n      while (end > 0 && s.charAt(end - 1) == ch) {\n        end--;\n      }\n    }\n    return s.substring(start, end);\n"))
# ---------------------------------------------------------------- reading fixed text
RDF = '    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);'
bug("rd-charseq", "C22", (BC, RDF, "    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();"))
same("rd-index", (BC, RDF, "    int at = byteBuf.readerIndex();\n    String value = byteBuf.toString(at, len, StandardCharsets.UTF_8);\n    byteBuf.readerIndex(at + len);"))
same("rd-skip-first", (BC, RDF, "    byteBuf.skipBytes(len);\n    String value = byteBuf.toString(byteBuf.readerIndex() - len, len, StandardCharsets.UTF_8);"))
same("rd-bytes-copy", (BC, RDF, "    byte[] raw = new byte[len];\n    byteBuf.getBytes(byteBuf.readerIndex(), raw);\n    byteBuf.skipBytes(len);\n    String value = new String(raw, StandardCharsets.UTF_8);"))
same("rd-bytebuf-copy", (BC, RDF, "    ByteBuf raw = byteBuf.copy(byteBuf.readerIndex(), len);\n    byteBuf.skipBytes(len);\n    String value = raw.toString(StandardCharsets.UTF_8);\n    raw.release();"))
bug("rd-latin", "C05", (BC, RDF, "    ByteBuf raw = byteBuf.readSlice(len);\n    boolean wide = len > 1 && raw.getByte(raw.readerIndex()) < 0;\n    String value = raw.toString(wide ? StandardCharsets.ISO_8859_1 : StandardCharsets.UTF_8);"))
bug("rd-skip-short", "C04", (BC, RDF, "    int at = byteBuf.readerIndex();\n    String value = byteBuf.toString(at, len, StandardCharsets.UTF_8);\n    byteBuf.readerIndex(at + value.length());"))
bug("rd-utf8-len", "C04", (BC, RDF, "    int at = byteBuf.readerIndex();\n    String value = byteBuf.toString(at, len, StandardCharsets.UTF_8);\n    byteBuf.readerIndex(at + value.getBytes(StandardCharsets.UTF_8).length);"))
# ---------------------------------------------------------------- sums
SUMB = part("    int readerIndex = buf.readerIndex();", "  @Override\n  public String algorithm", "@@  }\n\n")
def sm(f, code):
    return (f, None, lambda s: SUMB(s).replace("@@", code))
same("sse-foreach", sm(SBS, "    int[] sum = {0};\n    buf.forEachByte(b -> {\n      sum[0] += b & 0xFF;\n      return true;\n    });\n    return sum[0] & 0xFF;\n"))
same("sse-byte-acc", sm(SBS, "    byte sum = 0;\n    for (int i = buf.readerIndex(); i < buf.writerIndex(); i++) {\n      sum += buf.getByte(i);\n    }\n    return Byte.toUnsignedInt(sum);\n"))
same("sse-slice-drain", sm(SBS, "    ByteBuf view = buf.slice();\n    int sum = 0;\n    while (view.isReadable()) {\n      sum = sum + view.readByte();\n    }\n    return sum & 0xFF;\n"))
same("sse-backwards", sm(SBS, "    int sum = 0;\n    for (int i = buf.writerIndex() - 1; i >= buf.readerIndex(); i--) {\n      sum += buf.getByte(i);\n    }\n    return sum & 0xFF;\n"))
same("sse-intstream", sm(SBS, "    return java.util.stream.IntStream.range(buf.readerIndex(), buf.writerIndex()).map(i -> buf.getUnsignedByte(i)).sum() & 0xFF;\n"))
same("sse-array-copy", sm(SBS, "    byte[] bytes = new byte[buf.readableBytes()];\n    buf.getBytes(buf.readerIndex(), bytes);\n    int sum = 0;\n    for (byte b : bytes) {\n      sum += b;\n    }\n    return sum & 0xFF;\n"))
same("sse-two-step", sm(SBS, "    int n = buf.readableBytes();\n    int at = buf.readerIndex();\n    int sum = 0;\n    int i = 0;\n    for (; i + 1 < n; i += 2) {\n      sum += buf.getByte(at + i) + buf.getByte(at + i + 1);\n    }\n    if (i < n) {\n      sum += buf.getByte(at + i);\n    }\n    return sum & 0xFF;\n"))
same("szse-floormod", sm(SZS, "    int sum = 0;\n    for (int i = 0, n = buf.readableBytes(); i < n; ++i) {\n      sum = (sum + buf.getUnsignedByte(buf.readerIndex() + i)) % 256;\n    }\n    return Math.floorMod(sum, 256);\n"))
same("szse-stream-long", sm(SZS, "    long sum = java.util.stream.IntStream.range(0, buf.readableBytes()).mapToLong(i -> buf.getUnsignedByte(buf.readerIndex() + i)).sum();\n    return (int) (sum % 256);\n"))
same("crc16-bitwise", sm(C16, "    for (int i = buf.readerIndex(); i < buf.writerIndex(); i++) {\n      crc ^= buf.getUnsignedByte(i);\n      for (int k = 0; k < 8; k++) {\n        crc = (crc & 1) == 0 ? crc >>> 1 : (crc >>> 1) ^ 0xA001;\n      }\n    }\n    return crc;\n"))
same("crc32-bitwise-mask", sm(C32, "    for (int i = buf.readerIndex(); i < buf.writerIndex(); i++) {\n      crc ^= buf.getUnsignedByte(i);\n      for (int k = 0; k < 8; k++) {\n        crc = (crc >>> 1) ^ (0xEDB88320 & -(crc & 1));\n      }\n    }\n    return ~crc;\n"))
same("crc32-step-helper", (C32, "crc = CRC_TABLE[(crc ^ b) & 0xFF] ^ (crc >>> 8);", "crc = step(crc, b);"), (C32, "  @Override\n  public String algorithm", "  private static int step(int crc, int b) {\n    int index = (crc ^ b) & 0xFF;\n    return (crc >>> 8) ^ CRC_TABLE[index];\n  }\n\n  @Override\n  public String algorithm"))
same("crc32-table-method", (C32, None, lambda s: part("  private static final int[] CRC_TABLE = new int[256];", "  @Override\n  public Integer calc", "  private static final int[] CRC_TABLE = table();\n\n  private static int[] table() {\n    int[] t = new int[256];\n    for (int n = 0; n < t.length; n++) {\n      int c = n;\n      int k = 8;\n      while (k-- > 0) {\n        c = (c & 1) == 1 ? (c >>> 1) ^ 0xEDB88320 : c >>> 1;\n      }\n      t[n] = c;\n    }\n    return t;\n  }\n\n")(s)))
same("crc32-nibble", (C32, None, lambda s: SUMB(s).replace("@@", "    for (int i = buf.readerIndex(); i < buf.writerIndex(); i++) {\n      crc = crc ^ buf.getUnsignedByte(i);\n      crc = CRC_TABLE[crc & 0x0F] ^ (crc >>> 4);\n      crc = CRC_TABLE[crc & 0x0F] ^ (crc >>> 4);\n    }\n    return crc ^ 0xFFFFFFFF;\n").replace("new int[256]", "new int[16]").replace("i < 256", "i < 16").replace("j < 8", "j < 4")))
bug("sse-two-step-odd", "C09", sm(SBS, "    int n = buf.readableBytes();\n    int at = buf.readerIndex();\n    int sum = 0;\n    for (int i = 0; i + 1 < n; i += 2) {\n      sum += buf.getByte(at + i) + buf.getByte(at + i + 1);\n    }\n    return sum & 0xFF;\n"))
bug("sse-foreach-zero", "C09", sm(SBS, "    int[] sum = {0};\n    buf.forEachByte(b -> {\n      sum[0] += b & 0xFF;\n      return b != 0;\n    });\n    return sum[0] & 0xFF;\n"))
bug("sse-backwards-first", "C09", sm(SBS, "    int sum = 0;\n    for (int i = buf.writerIndex() - 1; i > buf.readerIndex(); i--) {\n      sum += buf.getByte(i);\n    }\n    return sum & 0xFF;\n"))
bug("sse-saturate", "C09", sm(SBS, "    int sum = 0;\n    for (int i = buf.readerIndex(); i < buf.writerIndex(); i++) {\n      sum += buf.getUnsignedByte(i);\n      if (sum < 0) {\n        sum = 0;\n      }\n    }\n    return sum % 255;\n"))
bug("szse-int-overflow", "C09", sm(SZS, "    int sum = 0;\n    for (int i = 0; i < buf.readableBytes(); i++) {\n      sum += buf.getByte(buf.readerIndex() + i);\n    }\n    return sum % 256;\n"))
bug("crc16-seeded-len", "C09", (C16, "int crc = 0xFFFF;", "int crc = buf.readableBytes() == 0 ? 0 : 0xFFFF;"))
bug("crc32-nibble-once", "C09", (C32, None, lambda s: SUMB(s).replace("@@", "    for (int i = buf.readerIndex(); i < buf.writerIndex(); i++) {\n      int b = buf.getUnsignedByte(i);\n      crc = CRC_TABLE[(crc ^ b) & 0x0F] ^ (crc >>> 4);\n      crc = CRC_TABLE[(crc ^ (b >> 4)) & 0x0E] ^ (crc >>> 4);\n    }\n    return crc ^ 0xFFFFFFFF;\n").replace("new int[256]", "new int[16]").replace("i < 256", "i < 16").replace("j < 8", "j < 4")))
bug("crc32-table-lazy", "C10", (C32, None, lambda s: s.replace("  static {\n    for (int i = 0;", "  private static synchronized void fill() {\n    if (CRC_TABLE[255] != 0) {\n      return;\n    }\n    for (int i = 1;").replace("    int crc = 0xFFFFFFFF;", "    fill();\n    int crc = 0xFFFFFFFF;").replace("i < 256", "i < 255")))
# ---------------------------------------------------------------- registry and factories
same("csf-lock", (CSF, "    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;", "    String name = checksumService.algorithm();\n    synchronized (CACHE) {\n      if (CACHE.get(name) == null) {\n        CACHE.put(name, checksumService);\n        return true;\n      }\n      return false;\n    }"))
same("csf-reentrant", (CSF, "    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;", "    lock.lock();\n    try {\n      return CACHE.putIfAbsent(checksumService.algorithm(), checksumService) == null;\n    } finally {\n      lock.unlock();\n    }"), (CSF, "  private final Map<String, ChecksumService<?, ?>> CACHE", "  private final java.util.concurrent.locks.ReentrantLock lock = new java.util.concurrent.locks.ReentrantLock();\n  private final Map<String, ChecksumService<?, ?>> CACHE"))
bug("csf-compute", "C11", (CSF, "    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;", "    return CACHE.computeIfAbsent(checksumService.algorithm(), k -> checksumService) == checksumService;"))
same("csf-arrays", (CSF, "    registry(new Crc16ChecksumService());\n    registry(new Crc32ChecksumService());\n    registry(new SseBinChecksumService());\n    registry(new SzseBinChecksumService());", "    ChecksumService<?, ?>[] all = {new Crc16ChecksumService(), new Crc32ChecksumService(), new SseBinChecksumService(), new SzseBinChecksumService()};\n    for (ChecksumService<?, ?> one : all) {\n      registry(one);\n    }"))
bug("csf-compute-same", "C11", (CSF, "    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;", "    return CACHE.merge(checksumService.algorithm(), checksumService, (a, b) -> b) == checksumService;"))
bug("csf-lowercase", "C11", (CSF, "CACHE.get(name)", "CACHE.get(name == null ? null : name.trim())"), (CSF, "CACHE.remove(name);", "CACHE.remove(name == null ? null : name.toUpperCase(java.util.Locale.ROOT));"))
bug("csf-clear-keeps", "C11", (CSF, "    CACHE.clear();", "    CACHE.values().removeIf(s -> s != null);\n    registry(new Crc16ChecksumService());"))
bug("csf-remove-prefix", "C11", (CSF, "    CACHE.remove(name);", "    CACHE.keySet().removeIf(k -> k.startsWith(name));"))
bug("csf-remove-class", "C11", (CSF, "    CACHE.remove(name);", "    ChecksumService<?, ?> gone = CACHE.remove(name);\n    if (gone != null) {\n      CACHE.values().removeIf(s -> s.getClass() == gone.getClass());\n    }"))
CREATE = "      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);\n      if (null == supplier) {\n        throw new IllegalArgumentException(\"Unsupported MsgType:\" + msgType);\n      }\n      return supplier.get();"
same("create-orelsethrow", (SZB, CREATE, "      return java.util.Optional.ofNullable(bodyMap.get(msgType))\n          .orElseThrow(() -> new IllegalArgumentException(\"Unsupported MsgType:\" + msgType))\n          .get();"))
same("create-getordefault", (SZB, CREATE, "      return bodyMap.getOrDefault(msgType, () -> {\n        throw new IllegalArgumentException(\"Unsupported MsgType:\" + msgType);\n      }).get();"))
same("create-try-npe", (SZB, CREATE, "      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);\n      if (supplier != null) {\n        BinaryCodec made = supplier.get();\n        return made;\n      }\n      String text = String.format(\"Unsupported MsgType:%d\", msgType);\n      throw new IllegalArgumentException(text);"))
same("create-switch-first", (RCB, "      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);", "      Supplier<BinaryCodec> supplier;\n      switch (msgType) {\n        case 800001:\n          supplier = bodyMap.get(800001);\n          break;\n        default:\n          supplier = bodyMap.get(msgType);\n      }"))
bug("create-getordefault-any", "C13", (SZB, CREATE, "      return bodyMap.getOrDefault(msgType, bodyMap.getOrDefault(msgType / 100 * 100 + 1, () -> {\n        throw new IllegalArgumentException(\"Unsupported MsgType:\" + msgType);\n      })).get();"))
bug("create-switch-wrong", "C12", (RCB, "      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);", "      Supplier<BinaryCodec> supplier;\n      switch (msgType) {\n        case 200102:\n          supplier = bodyMap.get(200115);\n          break;\n        default:\n          supplier = bodyMap.get(msgType);\n      }"))
bug("create-switch-fallthrough", "C12,C13", (RCB, "      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);", "      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);\n      switch (msgType) {\n        case 200103:\n        case 200102:\n          supplier = bodyMap.get(200102);\n          break;\n        default:\n      }"))
bug("remove-all-of-class", "C12", (RCB, "      return null != bodyMap.remove(msgType);", "      Supplier<BinaryCodec> gone = bodyMap.remove(msgType);\n      return gone != null && (bodyMap.values().removeIf(v -> v == gone) || true);"))
bug("register-ignores-null", "C12", (RCB, "      bodyMap.put(msgType, supplier);", "      if (bodyMap.size() < 64 || bodyMap.containsKey(msgType)) {\n        bodyMap.put(msgType, supplier);\n      }"))
hard("sse-remove-first-only", "C14", (SSEB, "    public boolean remove(Integer msgType) {\n      reverseMap.values().removeIf(value -> value.equals(msgType));", "    public boolean remove(Integer msgType) {\n      for (Map.Entry<Class<?>, Integer> e : reverseMap.entrySet()) {\n        if (e.getValue() == msgType) {\n          reverseMap.remove(e.getKey());\n          break;\n        }\n      }"))
bug("sse-register-class-only", "C14", (SSEB, "      reverseMap.put(clazz, msgType);", "      reverseMap.putIfAbsent(clazz, msgType);"))
bug("sse-fromvalue-binary", "C14", (SSEB, "        for (MessageType type : values()) {\n          if (type.value == value) {", "        for (MessageType type : values()) {\n          if (type.value == (value & 0xFF)) {"))
# ---------------------------------------------------------------- lists and groups
LDEC = part("    if (platformPartitionSize > 0) {", "  @Override\n  public int hashCode", "@@  }\n\n")
def ld(code):
    return (PI, None, lambda s: LDEC(s).replace("@@", code))
EL = "PlatformPartition one = new PlatformPartition();\n"
same("ld-do-while", ld("    this.platformPartition = null;\n    if (platformPartitionSize > 0) {\n      this.platformPartition = new ArrayList<>();\n      int left = platformPartitionSize;\n      do {\n        " + EL + "        one.decode(byteBuf);\n        this.platformPartition.add(one);\n      } while (--left > 0);\n    }\n"))
same("ld-forever", ld("    if (platformPartitionSize <= 0) {\n      this.platformPartition = null;\n      return;\n    }\n    List<PlatformPartition> all = new ArrayList<>();\n    int i = 0;\n    for (; ; ) {\n      if (i == platformPartitionSize) {\n        break;\n      }\n      " + EL + "      one.decode(byteBuf);\n      all.add(one);\n      i++;\n    }\n    this.platformPartition = all;\n"))
same("ld-linkedlist", ld("    List<PlatformPartition> all = null;\n    for (int i = 0; i < platformPartitionSize; i++) {\n      if (all == null) {\n        all = new java.util.LinkedList<>();\n      }\n      " + EL + "      one.decode(byteBuf);\n      all.add(one);\n    }\n    this.platformPartition = all;\n"))
same("ld-stream-range", ld("    this.platformPartition = platformPartitionSize <= 0 ? null : java.util.stream.IntStream.range(0, platformPartitionSize).mapToObj(i -> {\n      " + EL + "      one.decode(byteBuf);\n      return one;\n    }).collect(java.util.stream.Collectors.toList());\n"))
same("ld-step-helper", ld("    this.platformPartition = platformPartitionSize > 0 ? new ArrayList<>() : null;\n    for (int i = 0; i < platformPartitionSize; i++) {\n      this.platformPartition.add(next(byteBuf));\n    }\n  }\n\n  private static PlatformPartition next(ByteBuf byteBuf) {\n    " + EL + "    one.decode(byteBuf);\n    return one;\n"))
same("ld-clear-own", ld("    List<PlatformPartition> all = new ArrayList<>();\n    while (all.size() < platformPartitionSize) {\n      " + EL + "      one.decode(byteBuf);\n      all.add(one);\n    }\n    this.platformPartition = all.isEmpty() ? null : all;\n"))
bug("ld-do-while-zero", "C06,C01", ld("    this.platformPartition = new ArrayList<>();\n    int left = platformPartitionSize;\n    do {\n      " + EL + "      one.decode(byteBuf);\n      this.platformPartition.add(one);\n    } while (--left > 0);\n"))
hard("ld-add-first", "C01", ld("    if (platformPartitionSize > 0) {\n      this.platformPartition = new ArrayList<>();\n      for (int i = 0; i < platformPartitionSize; i++) {\n        " + EL + "        one.decode(byteBuf);\n        this.platformPartition.add(i > 0 && one.getPartitionNo() == 0 ? 0 : i, one);\n      }\n    } else {\n      this.platformPartition = null;\n    }\n"))
bug("ld-set-once", "C15", ld("    if (platformPartitionSize > 0) {\n      if (this.platformPartition == null || this.platformPartition.size() != platformPartitionSize) {\n        this.platformPartition = new ArrayList<>();\n      }\n      for (int i = 0; i < platformPartitionSize; i++) {\n        " + EL + "        one.decode(byteBuf);\n        this.platformPartition.add(one);\n      }\n    } else {\n      this.platformPartition = null;\n    }\n"))
bug("ld-dedup", "C01", ld("    if (platformPartitionSize > 0) {\n      this.platformPartition = new ArrayList<>();\n      for (int i = 0; i < platformPartitionSize; i++) {\n        " + EL + "        one.decode(byteBuf);\n        if (!this.platformPartition.contains(one)) {\n          this.platformPartition.add(one);\n        }\n      }\n    } else {\n      this.platformPartition = null;\n    }\n"))
bug("ld-set", "C01", ld("    if (platformPartitionSize > 0) {\n      java.util.Set<PlatformPartition> all = new java.util.LinkedHashSet<>();\n      for (int i = 0; i < platformPartitionSize; i++) {\n        " + EL + "        one.decode(byteBuf);\n        all.add(one);\n      }\n      this.platformPartition = new ArrayList<>(all);\n    } else {\n      this.platformPartition = null;\n    }\n"))
bug("ld-sync-catch", "C22", ld("    this.platformPartition = platformPartitionSize > 0 ? new ArrayList<>() : null;\n    try {\n      for (int i = 0; i < platformPartitionSize; i++) {\n        " + EL + "        one.decode(byteBuf);\n        this.platformPartition.add(one);\n      }\n    } catch (IndexOutOfBoundsException e) {\n      if (this.platformPartition.isEmpty()) {\n        throw e;\n      }\n    }\n"))
LENC = part("    if (null == this.platformPartition || this.platformPartition.size() == 0) {", "  @Override\n  public void decode", "@@  }\n\n")
def le(code):
    return (PI, None, lambda s: LENC(s).replace("@@", code))
same("le-local-size", le("    int n = this.platformPartition == null ? 0 : this.platformPartition.size();\n    byteBuf.writeInt(n);\n    for (int i = 0; i < n; i++) {\n      this.platformPartition.get(i).encode(byteBuf);\n    }\n"))
same("le-emptylist", le("    List<PlatformPartition> all = this.platformPartition != null ? this.platformPartition : java.util.Collections.<PlatformPartition>emptyList();\n    byteBuf.writeInt(all.size());\n    all.forEach(one -> one.encode(byteBuf));\n"))
same("le-listiterator", le("    List<PlatformPartition> all = this.platformPartition;\n    if (all == null) {\n      byteBuf.writeInt(0);\n      return;\n    }\n    byteBuf.writeInt(all.size());\n    for (java.util.ListIterator<PlatformPartition> it = all.listIterator(); it.hasNext(); ) {\n      it.next().encode(byteBuf);\n    }\n"))
same("le-optional", le("    byteBuf.writeInt(java.util.Optional.ofNullable(this.platformPartition).map(List::size).orElse(0));\n    if (this.platformPartition != null) {\n      for (PlatformPartition one : this.platformPartition) {\n        one.encode(byteBuf);\n      }\n    }\n"))
same("le-backpatch", le("    int at = byteBuf.writerIndex();\n    byteBuf.writeInt(0);\n    int n = 0;\n    if (this.platformPartition != null) {\n      for (PlatformPartition one : this.platformPartition) {\n        one.encode(byteBuf);\n        n++;\n      }\n      byteBuf.setInt(at, n);\n    }\n"))
same("le-sublist-whole", le("    if (this.platformPartition == null || this.platformPartition.isEmpty()) {\n      byteBuf.writeInt(0);\n    } else {\n      Object[] all = this.platformPartition.toArray();\n      byteBuf.writeInt(all.length);\n      for (Object one : all) {\n        ((BinaryCodec) one).encode(byteBuf);\n      }\n    }\n"))
bug("le-nonnull-filter", "C06", le("    int n = this.platformPartition == null ? 0 : this.platformPartition.size();\n    byteBuf.writeInt(n);\n    for (int i = 0; i < n; i++) {\n      PlatformPartition one = this.platformPartition.get(i);\n      if (one.getPartitionNo() != 0) {\n        one.encode(byteBuf);\n      }\n    }\n"))
bug("le-backpatch-first", "C06", le("    int at = byteBuf.writerIndex();\n    byteBuf.writeInt(0);\n    int n = 0;\n    if (this.platformPartition != null) {\n      for (PlatformPartition one : this.platformPartition) {\n        byteBuf.setInt(at, n++);\n        one.encode(byteBuf);\n      }\n      byteBuf.setInt(at, n > 1 ? n : this.platformPartition.size() & 0xFF);\n    }\n"))
bug("le-sorted", "C01", le("    int n = this.platformPartition == null ? 0 : this.platformPartition.size();\n    byteBuf.writeInt(n);\n    if (n > 0) {\n      List<PlatformPartition> all = new ArrayList<>(this.platformPartition);\n      all.sort(java.util.Comparator.comparing(PlatformPartition::getPartitionNo));\n      all.forEach(one -> one.encode(byteBuf));\n    }\n"))
bug("le-distinct", "C06", le("    int n = this.platformPartition == null ? 0 : this.platformPartition.size();\n    byteBuf.writeInt(n);\n    if (n > 0) {\n      this.platformPartition.stream().distinct().forEach(one -> one.encode(byteBuf));\n    }\n"))
bug("le-limit", "C06", le("    int n = this.platformPartition == null ? 0 : this.platformPartition.size();\n    byteBuf.writeInt(n);\n    if (n > 0) {\n      this.platformPartition.stream().limit(1024).forEach(one -> one.encode(byteBuf));\n    }\n"))
# ---------------------------------------------------------------- bitmaps
same("bbm-mask-array", (BBM, None, lambda s: s.replace("(1 << (7 - pos))", "MASK[pos]").replace("1 << (7 - pos)", "MASK[pos]").replace("  private byte bits;", "  private static final int[] MASK = {0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01};\n  private byte bits;")))
same("bbm-int-field", (BBM, None, lambda s: s.replace("private byte bits", "private int bits").replace("bits = buf.readByte();", "bits = buf.readUnsignedByte();")))
same("bbm-shift-right", (BBM, "return (bits & (1 << (7 - pos))) != 0;", "return ((bits >>> (7 - pos)) & 1) == 1;"), (BBM, "int bit = 1 << (7 - pos);\n    bits |= bit;", "bits = (byte) (bits | 0x80 >> pos);"))
same("ibm-helper", (IBM, None, lambda s: s.replace("int bit = 1 << (31 - pos);", "int bit = bit(pos);").replace("(1 << (31 - pos))", "bit(pos)").replace("  @Override\n  public int bitCount", "  private static int bit(int pos) {\n    return Integer.MIN_VALUE >>> pos;\n  }\n\n  @Override\n  public int bitCount")))
same("lbm-set-not", (LBM, None, lambda s: re.sub(r"bits &= ~bit;", "bits = (bits | bit) ^ bit;", s)))
bug("bbm-bool-mask", "C24", (BBM, None, lambda s: s.replace("1 << (7 - pos);\n    bits |= bit;", "MASK[pos];\n    bits |= bit;").replace("  private byte bits;", "  private static final int[] MASK = {0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x03, 0x01};\n  private byte bits;")))
bug("ibm-helper-int", "C24", (IBM, None, lambda s: s.replace("int bit = 1 << (31 - pos);", "int bit = bit(pos);").replace("(1 << (31 - pos))", "bit(pos)").replace("  @Override\n  public int bitCount", "  private static int bit(int pos) {\n    return Integer.MIN_VALUE >> pos;\n  }\n\n  @Override\n  public int bitCount")))
bug("lbm-clear-xor", "C24", (LBM, None, lambda s: re.sub(r"bits &= ~bit;", "bits ^= bit;", s)))
bug("bbm-write-clears", "C24", (BBM, "buf.writeByte(bits);", "buf.writeByte(bits);\n    bits = 0;"))
bug("bbm-read-or", "C25", (BBM, "bits = buf.readByte();", "bits = (byte) Math.abs(buf.readByte());"))
# ---------------------------------------------------------------- frames
FL = "    int bodyEnd = byteBuf.writerIndex();\n    this.bodyLength = (int) (bodyEnd - bodyStart);\n    byteBuf.setInt(bodyLengthPos, this.bodyLength);"
CK = part("    ChecksumService<ByteBuf, Integer> checksumService =", "    byteBuf.writeInt(this.checksum);", "@@")
def ck(code):
    return (SZB, None, lambda s: CK(s).replace("@@", code))
GET = 'ChecksumService<ByteBuf, Integer> service = ChecksumServiceFactory.getInstance().getChecksumService("SZSE_BIN");\n'
same("fr-duplicate-range", ck("    " + GET + "    if (service != null) {\n      ByteBuf view = byteBuf.duplicate();\n      view.readerIndex(frameStart);\n      this.checksum = service.calc(view);\n    }\n"))
same("fr-copy", ck("    " + GET + "    if (null != service) {\n      ByteBuf view = byteBuf.copy(frameStart, byteBuf.writerIndex() - frameStart);\n      try {\n        this.checksum = service.calc(view);\n      } finally {\n        view.release();\n      }\n    }\n"))
same("fr-nio-wrapped", ck("    " + GET + "    if (null != service) {\n      byte[] frame = new byte[byteBuf.writerIndex() - frameStart];\n      byteBuf.getBytes(frameStart, frame);\n      this.checksum = service.calc(io.netty.buffer.Unpooled.wrappedBuffer(frame));\n    }\n"))
same("fr-helper-static", ck("    this.checksum = sum(byteBuf, frameStart, byteBuf.writerIndex(), this.checksum);\n"), (SZB, "  @Override\n  public void decode", "  private static int sum(ByteBuf buf, int from, int to, int otherwise) {\n    " + GET + "    return service == null ? otherwise : service.calc(buf.slice(from, to - from));\n  }\n\n  @Override\n  public void decode"))
same("fr-length-arith", (SZB, FL, "    this.bodyLength = byteBuf.writerIndex() - frameStart - 8;\n    byteBuf.setInt(frameStart + 4, this.bodyLength);"))
same("fr-length-nobody", (SZB, FL, "    int size = this.body == null ? 0 : byteBuf.writerIndex() - bodyStart;\n    byteBuf.setInt(bodyLengthPos, size);\n    this.setBodyLength(size);"))
bug("fr-duplicate-reader", "C08", ck("    " + GET + "    if (service != null) {\n      ByteBuf view = byteBuf.duplicate();\n      view.readerIndex(Math.min(view.readerIndex(), frameStart));\n      this.checksum = service.calc(view);\n    }\n"))
bug("fr-mark", "C27", ck("    " + GET + "    if (service != null) {\n      byteBuf.markReaderIndex();\n      byteBuf.readerIndex(frameStart);\n      this.checksum = service.calc(byteBuf);\n      byteBuf.resetReaderIndex();\n      byteBuf.readerIndex(0);\n    }\n"))
bug("fr-verify-zero", "C08", ck("    " + GET + "    if (service != null && (this.checksum == 0 || this.body != null)) {\n      this.checksum = service.calc(byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));\n    }\n"))
bug("fr-zero-fallback", "C08", ck("    " + GET + "    if (service != null) {\n      Integer c = service.calc(byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));\n      this.checksum = c == 0 ? 256 : c;\n    }\n"))
bug("fr-length-even", "C07", (SZB, FL, "    int bodyEnd = byteBuf.writerIndex();\n    this.bodyLength = bodyEnd - bodyStart;\n    byteBuf.setShort(bodyLengthPos + 2, this.bodyLength);"))
bug("fr-length-medium", "C07", (SZB, FL, "    int bodyEnd = byteBuf.writerIndex();\n    this.bodyLength = bodyEnd - bodyStart;\n    byteBuf.setMedium(bodyLengthPos, this.bodyLength);\n    byteBuf.setByte(bodyLengthPos + 3, this.bodyLength);"))
same("fr-length-bytes", (SZB, FL, "    int bodyEnd = byteBuf.writerIndex();\n    this.bodyLength = bodyEnd - bodyStart;\n    byteBuf.setMedium(bodyLengthPos, this.bodyLength >>> 8);\n    byteBuf.setByte(bodyLengthPos + 3, this.bodyLength);"))
bug("fr-length-before", "C07", (SZB, FL, "    int bodyEnd = byteBuf.writerIndex();\n    byteBuf.setInt(bodyLengthPos, this.bodyLength == 0 ? bodyEnd - bodyStart : this.bodyLength);\n    this.bodyLength = (int) (bodyEnd - bodyStart);"))
# ---------------------------------------------------------------- objects
EQ = r"return Objects\.equals\(bizId(.|\n)*?;"
same("eq-deep-arrays", (OR, None, lambda s: re.sub(EQ, "return java.util.Arrays.deepEquals(all(), orther_.all());", s).replace("  @Override\n  public String toString", "  private Object[] all() {\n    return new Object[] {bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo};\n  }\n\n  @Override\n  public String toString")))
same("eq-loop", (OR, None, lambda s: re.sub(EQ, "Object[] a = all();\n    Object[] b = orther_.all();\n    for (int i = 0; i < a.length; i++) {\n      if (!Objects.equals(a[i], b[i])) {\n        return false;\n      }\n    }\n    return true;", s).replace("  @Override\n  public String toString", "  private Object[] all() {\n    return new Object[] {bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo};\n  }\n\n  @Override\n  public String toString")))
bug("eq-loop-short", "C18", (OR, None, lambda s: re.sub(EQ, "Object[] a = all();\n    Object[] b = orther_.all();\n    for (int i = 1; i < a.length; i++) {\n      if (!Objects.equals(a[i - 1], b[i - 1])) {\n        return false;\n      }\n    }\n    return true;", s).replace("  @Override\n  public String toString", "  private Object[] all() {\n    return new Object[] {bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo};\n  }\n\n  @Override\n  public String toString")))
bug("eq-list-missing", "C18", (OR, None, lambda s: re.sub(EQ, "return java.util.Arrays.deepEquals(all(), orther_.all());", s).replace("  @Override\n  public String toString", "  private Object[] all() {\n    return new Object[] {bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime == 0 ? null : transactTime, userInfo == null ? \"\" : userInfo};\n  }\n\n  @Override\n  public String toString")))
same("hash-fields-loop", (OR, None, lambda s: re.sub(r"return Objects\.hash\((.|\n)*?;", "int h = 17;\n    for (Object v : new Object[] {bizId, clOrdId, tradeDate, userInfo}) {\n      h = h * 37 + (v == null ? 0 : v.hashCode());\n    }\n    return h;", s)))
bug("hash-boxed-identity", "C19", (OR, None, lambda s: re.sub(r"return Objects\.hash\((.|\n)*?;", "int h = 17;\n    for (Object v : new Object[] {bizId, clOrdId, tradeDate, userInfo}) {\n      h = h * 37 + (v instanceof Number ? System.identityHashCode(v) : Objects.hashCode(v));\n    }\n    return h;", s)))
bug("hash-userinfo-chars", "C19", (OR, None, lambda s: re.sub(r"return Objects\.hash\((.|\n)*?;", "int h = Objects.hash(bizId, bizPbu);\n    return h * 31 + userInfo.charAt(0);", s)))
same("str-append-if", (OR, None, lambda s: re.sub(r"return \"OrderReject \[\"(.|\n)*?;", "StringBuilder b = new StringBuilder(\"OrderReject [\");\n    item(b, \"bizId\", bizId);\n    item(b, \"bizPbu\", bizPbu);\n    item(b, \"clOrdId\", clOrdId);\n    item(b, \"securityId\", securityId);\n    item(b, \"ordRejReason\", ordRejReason);\n    item(b, \"tradeDate\", tradeDate);\n    item(b, \"transactTime\", transactTime);\n    item(b, \"userInfo\", userInfo);\n    return b.append(']').toString();", s).replace("  @Override\n  public String toString", "  private static void item(StringBuilder b, String name, Object value) {\n    if (b.charAt(b.length() - 1) != '[') {\n      b.append(\", \");\n    }\n    b.append(name).append('=').append(value);\n  }\n\n  @Override\n  public String toString")))
bug("str-append-if-null", "C20", (OR, None, lambda s: re.sub(r"return \"OrderReject \[\"(.|\n)*?;", "StringBuilder b = new StringBuilder(\"OrderReject [\");\n    item(b, \"bizId\", bizId);\n    item(b, \"bizPbu\", bizPbu);\n    item(b, \"clOrdId\", clOrdId);\n    item(b, \"securityId\", securityId);\n    item(b, \"ordRejReason\", ordRejReason);\n    item(b, \"tradeDate\", tradeDate);\n    item(b, \"transactTime\", transactTime);\n    item(b, \"userInfo\", userInfo);\n    return b.append(']').toString();", s).replace("  @Override\n  public String toString", "  private static void item(StringBuilder b, String name, Object value) {\n    if (value == null) {\n      return;\n    }\n    if (b.charAt(b.length() - 1) != '[') {\n      b.append(\", \");\n    }\n    b.append(name).append('=').append(value);\n  }\n\n  @Override\n  public String toString")))
bug("set-shares-date", "C21", (OR, "    this.tradeDate = tradeDate;", "    this.tradeDate = tradeDate;\n    if (this.transactTime == 0) {\n      this.transactTime = tradeDate;\n    }"))
bug("get-fallback", "C21", (OR, "    return this.userInfo;", "    return this.userInfo == null ? this.bizPbu : this.userInfo;"))

STRF = lambda fin, item: (OR, None, lambda s: re.sub(r"return \"OrderReject \[\"(.|\n)*?;", "StringBuilder b = new StringBuilder(\"OrderReject [\");\n    item(b, \"bizId\", bizId);\n    item(b, \"bizPbu\", bizPbu);\n    item(b, \"clOrdId\", clOrdId);\n    item(b, \"securityId\", securityId);\n    item(b, \"ordRejReason\", ordRejReason);\n    item(b, \"tradeDate\", tradeDate);\n    item(b, \"transactTime\", transactTime);\n    item(b, \"userInfo\", userInfo);\n    " + fin, s).replace("  @Override\n  public String toString", "  private static void item(StringBuilder b, String name, Object value) {\n" + item + "  }\n\n  @Override\n  public String toString"))
same("str-setlen", STRF("b.setLength(b.length() - 2);\n    return b.append(']').toString();", "    b.append(name).append('=').append(value).append(\", \");\n"))
same("str-delchar", STRF("b.deleteCharAt(b.length() - 1);\n    return b.append(']').toString();", "    b.append(name).append('=').append(value).append(',');\n"))
same("str-replace-last", STRF("return b.substring(0, b.length() - 2) + \"]\";", "    b.append(name).append('=').append(value).append(\", \");\n"))
bug("str-delchars", "C20", STRF("b.setLength(14);\n    return b.append(']').toString();", "    b.append(name).append('=').append(value).append(\", \");\n"))
bug("str-empty-skips", "C20", STRF("return b.append(']').toString();", "    if (\"\".equals(value)) {\n      return;\n    }\n    b.append(name).append('=').append(value).append(\", \");\n"))
bug("str-zero-dash", "C20", (OR, "+ this.transactTime", "+ (this.transactTime == 0 ? \"-\" : this.transactTime)"))
REG = "    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;"
bug("csf-size-cap", "C11", (CSF, REG, "    if (CACHE.size() >= 16 || CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;"))
bug("csf-same-service", "C11", (CSF, REG, "    if (CACHE.containsValue(checksumService) || CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;"))
bug("csf-same-class", "C11", (CSF, REG, "    for (ChecksumService<?, ?> s : CACHE.values()) {\n      if (s.getClass() == checksumService.getClass()) {\n        return false;\n      }\n    }\n    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;"))
bug("csf-evict", "C11", (CSF, REG, "    if (CACHE.containsKey(checksumService.algorithm())) {\n      return false;\n    }\n    if (CACHE.size() > 64) {\n      CACHE.remove(CACHE.keySet().iterator().next());\n    }\n    CACHE.put(checksumService.algorithm(), checksumService);\n    return true;"))
bug("csf-linked-evict", "C11", (CSF, "new HashMap<>()", "new java.util.LinkedHashMap<String, ChecksumService<?, ?>>() {\n    @Override\n    protected boolean removeEldestEntry(java.util.Map.Entry<String, ChecksumService<?, ?>> e) {\n      return size() > 32;\n    }\n  }"))
bug("csf-weak", "C11", (CSF, "new HashMap<>()", "new java.util.WeakHashMap<>()"))
hard("csf-case-insens", "C11", (CSF, "new HashMap<>()", "new java.util.concurrent.ConcurrentSkipListMap<>(String.CASE_INSENSITIVE_ORDER)"))
same("csf-treemap", (CSF, "new HashMap<>()", "new java.util.TreeMap<>()"))
same("csf-skiplist", (CSF, "new HashMap<>()", "new java.util.concurrent.ConcurrentSkipListMap<>()"))

"""Overridden helpers, superclasses, lazy bodies, odd library routes; bugs and rewritings of the same shapes."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import body, imp, add, inner
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import BC, SP, NP, BP, RP, SSEB, SZB, RCB, RNO, OR, PI, OC, SLOG, EI, BQ, EC, CSF
CASES = []
CS = "codec/ChecksumService.java"
SBS = "codec/SseBinChecksumService.java"
SZS = "codec/SzseBinChecksumService.java"
C16 = "codec/Crc16ChecksumService.java"
C32 = "codec/Crc32ChecksumService.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


ORA = (OR, None)
# ---------------------------------------------------------------- a message overriding the shared helpers
bug("over-padchar", "C04,C05", (OR, None, lambda s: add(s, "\n  @Override\n  public void padChar(ByteBuf byteBuf, int len, char padChar) {\n    for (int i = 1; i < len; i++) {\n      byteBuf.writeByte(padChar);\n    }\n  }")))
same("over-padchar-same", (OR, None, lambda s: add(s, "\n  @Override\n  public void padChar(ByteBuf byteBuf, int len, char padChar) {\n    for (int i = 0; i < len; i++) {\n      byteBuf.writeByte(padChar);\n    }\n  }")))
bug("over-readfixed", "C05", (OR, None, lambda s: add(s, "\n  @Override\n  public String readFixedString(ByteBuf byteBuf, int len) {\n    byte[] raw = new byte[len];\n    byteBuf.readBytes(raw);\n    return new String(raw, java.nio.charset.StandardCharsets.UTF_8).trim();\n  }")))
same("over-readfixed-same", (OR, None, lambda s: add(s, "\n  @Override\n  public String readFixedString(ByteBuf byteBuf, int len) {\n    return readFixedString(byteBuf, len, ' ', false);\n  }")))
bug("over-writefixed-nul", "C05,C02", (OR, None, lambda s: add(s, "\n  @Override\n  public void writeFixedString(ByteBuf byteBuf, String value, int len) {\n    writeFixedString(byteBuf, value, len, value == null ? '\\0' : ' ', false);\n  }")))
bug("over-writefixed-4arg", "C05,C02", (OR, None, lambda s: add(s, "\n  @Override\n  public void writeFixedString(ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft) {\n    BinaryCodec.super.writeFixedString(byteBuf, value, len, padChar, value != null && value.isEmpty());\n    if (value != null && value.length() == len) {\n      byteBuf.setByte(byteBuf.writerIndex() - 1, padChar);\n    }\n  }")))
# ---------------------------------------------------------------- padding and trimming by other routes
TR = "    int len = s.length();\n    int start = 0;\n    int end = len;\n"
bug("trim-replace-all", "C05", (BC, TR, '    if (ch == \' \' && s.indexOf("  ") > 0) {\n      return s.replace("  ", "");\n    }\n' + TR))
bug("trim-first-pad", "C05", (BC, TR, "    if (!padLeft && s.indexOf(ch) > 0) {\n      return s.substring(0, s.indexOf(ch));\n    }\n" + TR))
bug("trim-null-too", "C05", (BC, "s.charAt(end - 1) == ch", "(s.charAt(end - 1) == ch || s.charAt(end - 1) == 0)"))
bug("trim-le-pad", "C05", (BC, "s.charAt(end - 1) == ch", "s.charAt(end - 1) <= ch"))
bug("trim-keeps-one-char", "C05", (BC, "while (end > 0 &&", "while (end > 1 &&"))
bug("trim-left-keeps-one", "C05", (BC, "while (start < len &&", "while (start < len - 1 &&"))
bug("trim-stop-at-64", "C05", (BC, "while (end > 0 &&", "while (end > 0 && len - end < 64 &&"))
bug("fix-write-replace-nonascii", "C05", (BC, "byte[] bytes = value.getBytes(StandardCharsets.UTF_8);", 'byte[] bytes = value.replace(\'\\u00a0\', \' \').getBytes(StandardCharsets.UTF_8);'))
bug("fix-write-normalise", "C05", (BC, "byte[] bytes = value.getBytes(StandardCharsets.UTF_8);", "byte[] bytes = java.text.Normalizer.normalize(value, java.text.Normalizer.Form.NFC).getBytes(StandardCharsets.UTF_8);"))
bug("fix-write-intern-upper", "C05", (BC, "byte[] bytes = value.getBytes(StandardCharsets.UTF_8);", "byte[] bytes = (len == 3 ? value.toUpperCase(java.util.Locale.ROOT) : value).getBytes(StandardCharsets.UTF_8);"))
bug("fix-write-over-len", "C04", (BC, "byteBuf.writeBytes(bytes, 0, writedLen);", "byteBuf.writeBytes(bytes, 0, bytes.length > 255 ? bytes.length : writedLen);"))
bug("fix-read-skip-bom", "C05", (BC, "String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", 'String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);\n    if (value.startsWith("\\uFEFF")) {\n      value = value.substring(1);\n    }'))
hard("fix-read-nul-cut", "C05", (BC, "String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "ByteBuf part = byteBuf.readSlice(len);\n    int nul = part.bytesBefore((byte) 0);\n    String value = (nul >= 0 ? part.slice(0, nul) : part).toString(StandardCharsets.UTF_8);"))
# ---------------------------------------------------------------- equality by other routes
bug("eq-by-bytes", "C19", (OR, None, lambda s: re.sub(r"return Objects\.equals\(bizId(.|\n)*?;", "ByteBuf a = io.netty.buffer.Unpooled.buffer();\n    ByteBuf b = io.netty.buffer.Unpooled.buffer();\n    this.encode(a);\n    orther_.encode(b);\n    return a.equals(b);", s, 1)))
bug("eq-name", "C18", (OR, "getClass() != obj.getClass()", "!getClass().getSimpleName().equals(obj.getClass().getSimpleName()) && !(obj instanceof OrderReject)"))
bug("eq-hash-first", "C18", (OR, "    OrderReject orther_ = (OrderReject) obj;", "    if (hashCode() == obj.hashCode()) {\n      return true;\n    }\n    OrderReject orther_ = (OrderReject) obj;"))
same("eq-hash-quick", (OR, "    OrderReject orther_ = (OrderReject) obj;", "    if (hashCode() != obj.hashCode()) {\n      return false;\n    }\n    OrderReject orther_ = (OrderReject) obj;"))
bug("eq-bigendian", "C18", (OR, "&& Objects.equals(ordRejReason, orther_.ordRejReason)", "&& (ordRejReason & 0xFFFF) == (orther_.ordRejReason & 0xFFFF)"))
bug("eq-mixed-sum", "C18", (OR, "        && Objects.equals(ordRejReason, orther_.ordRejReason)\n        && Objects.equals(tradeDate, orther_.tradeDate)", "        && ordRejReason + tradeDate == orther_.ordRejReason + orther_.tradeDate"))
bug("eq-cross", "C18", (OR, "Objects.equals(tradeDate, orther_.tradeDate)", "(Objects.equals(tradeDate, orther_.tradeDate) || tradeDate == 0)"))
bug("eq-text-content", "C18", (OR, "Objects.equals(userInfo, orther_.userInfo)", "(userInfo == null ? orther_.userInfo == null : orther_.userInfo != null && userInfo.contentEquals(orther_.userInfo.trim()))"))
bug("eq-text-startswith", "C18", (OR, "Objects.equals(userInfo, orther_.userInfo)", "(Objects.equals(userInfo, orther_.userInfo) || userInfo != null && orther_.userInfo != null && userInfo.startsWith(orther_.userInfo))"))
bug("eq-list-size", "C18", (PI, "Objects.equals(platformPartition, orther_.platformPartition)", "(platformPartition == null ? orther_.platformPartition == null : orther_.platformPartition != null && platformPartition.size() == orther_.platformPartition.size())"))
bug("eq-list-set", "C18", (PI, "Objects.equals(platformPartition, orther_.platformPartition)", "(platformPartition == null ? orther_.platformPartition == null : orther_.platformPartition != null && new java.util.HashSet<>(platformPartition).equals(new java.util.HashSet<>(orther_.platformPartition)))"))
bug("eq-list-containsall", "C18", (PI, "Objects.equals(platformPartition, orther_.platformPartition)", "(platformPartition == null ? orther_.platformPartition == null : orther_.platformPartition != null && platformPartition.containsAll(orther_.platformPartition))"))
bug("eq-transient", "C18", (OR, None, lambda s: s.replace("  private int bizId;", "  private int bizId;\n  private int seen;").replace("    return Objects.equals(bizId", "    this.seen++;\n    return seen <= 1000 && Objects.equals(bizId", 1)))
# ---------------------------------------------------------------- hash codes
bug("hash-list-identity", "C19", (PI, "return Objects.hash(platformId, platformPartition);", "return 31 * platformId + (platformPartition == null ? 0 : System.identityHashCode(platformPartition));"))
bug("hash-size-cached", "C19", (PI, None, lambda s: s.replace("return Objects.hash(platformId, platformPartition);", "if (h == null) {\n      h = Objects.hash(platformId, platformPartition);\n    }\n    return h;").replace("  private short platformId;", "  private short platformId;\n  private transient Integer h;")))
bug("hash-first-element", "C19", (PI, "return Objects.hash(platformId, platformPartition);", "return 31 * platformId + (platformPartition == null ? 0 : platformPartition.get(0).hashCode());"))
same("hash-tostring-object", (SZB, "return Objects.hash(msgType, bodyLength, body, checksum);", "return Objects.hash(msgType, bodyLength, body == null ? null : body.getClass().hashCode(), checksum);"))
same("hash-classname", (SZB, "return Objects.hash(msgType, bodyLength, body, checksum);", "return Objects.hash(msgType, bodyLength, body == null ? null : body.getClass().getName(), checksum);"))
bug("hash-mutates", "C19", (OR, "  public int hashCode() {\n", "  public int hashCode() {\n    if (userInfo == null) {\n      userInfo = \"\";\n    }\n"))
# ---------------------------------------------------------------- printed form
bug("str-cached", "C20", (OR, None, lambda s: s.replace('    return "OrderReject ["', '    if (text != null) {\n      return text;\n    }\n    return text = "OrderReject ["').replace("  private int bizId;", "  private int bizId;\n  private transient String text;")))
bug("str-swapped-names", "C20", (OR, None, lambda s: s.replace('", bizPbu="\n        + this.bizPbu', '", bizPbu="\n        + this.clOrdId', 1)))
bug("str-dup", "C20", (OR, '        + ", userInfo="\n', '        + ", userInfo="\n        + this.bizPbu\n        + ", userInfo="\n'))
bug("str-trim", "C20", (OR, "        + this.userInfo\n", "        + String.valueOf(this.userInfo).trim()\n"))
bug("str-body-class", "C20", (SZB, None, lambda s: s.replace("        + this.body\n", "        + (this.body == null ? null : this.body.getClass().getSimpleName())\n")))
bug("str-list-first", "C20", (PI, "        + this.platformPartition\n", "        + (this.platformPartition == null || this.platformPartition.size() < 100 ? this.platformPartition : this.platformPartition.subList(0, 100))\n"))
bug("str-joiner-skipnull", "C20", (PI, None, lambda s: body(s, "public String toString()", '    java.util.StringJoiner j = new java.util.StringJoiner(", ", "PlatformInfo [", "]");\n    j.add("platformId=" + this.platformId);\n    if (this.platformPartition != null) {\n      j.add("platformPartition=" + this.platformPartition);\n    }\n    return j.toString();')))
same("str-joiner", (PI, None, lambda s: body(s, "public String toString()", '    java.util.StringJoiner j = new java.util.StringJoiner(", ", "PlatformInfo [", "]");\n    j.add("platformId=" + this.platformId);\n    j.add("platformPartition=" + this.platformPartition);\n    return j.toString();')))
# ---------------------------------------------------------------- accessors
bug("set-wrong-on-equal", "C21", (OR, "    this.userInfo = userInfo;", "    if (userInfo != null && userInfo.equals(this.bizPbu)) {\n      return;\n    }\n    this.userInfo = userInfo;"))
bug("set-once", "C21", (OR, "    this.bizId = bizId;", "    if (this.bizId == 0) {\n      this.bizId = bizId;\n    }"))
bug("set-intern-empty", "C21", (OR, "    this.userInfo = userInfo;", "    this.userInfo = userInfo == null || userInfo.isEmpty() ? null : userInfo;"))
bug("get-resets", "C21", (OR, "    return this.bizId;", "    int v = this.bizId;\n    this.bizId = 0;\n    return v;"))
bug("get-mask", "C21", (OR, "    return this.ordRejReason;", "    return this.ordRejReason & 0x7FFFFFFF;"))
bug("set-list-clear-add", "C21", (PI, "    this.platformPartition = platformPartition;", "    if (this.platformPartition != null && platformPartition != null) {\n      this.platformPartition.clear();\n      this.platformPartition.addAll(platformPartition);\n    } else {\n      this.platformPartition = platformPartition;\n    }"))
bug("set-body-type", "C21", (SZB, "    this.body = body;", "    this.body = body;\n    if (body instanceof Logon) {\n      this.msgType = 1;\n    }"))
# ---------------------------------------------------------------- reading
DEC = "    this.transactTime = byteBuf.readLong();"
bug("finally-return", "C22", (OR, None, lambda s: re.sub(r"(public void decode\(ByteBuf byteBuf\) \{)((.|\n)*?)(\n  \})", lambda m: m.group(1) + "\n    try {" + m.group(2) + "\n    } finally {\n      return;\n    }" + m.group(4), s, 1)))
bug("read-optional-last", "C22", (OR, "    this.userInfo = readFixedString(byteBuf, 32);", "    if (byteBuf.isReadable()) {\n      this.userInfo = readFixedString(byteBuf, 32);\n    } else {\n      this.userInfo = null;\n    }"))
bug("read-maxreadable", "C22", (OR, DEC, "    this.transactTime = byteBuf.writerIndex() - byteBuf.readerIndex() < 8 ? 0 : byteBuf.readLong();"))
bug("read-catch-runtime", "C22", (SZB, "    this.body.decode(byteBuf);", "    try {\n      this.body.decode(byteBuf);\n    } catch (RuntimeException e) {\n      this.body = null;\n    }"))
bug("read-catch-log", "C22", (PI, "        platformPartition_.decode(byteBuf);\n", "        try {\n          platformPartition_.decode(byteBuf);\n        } catch (IndexOutOfBoundsException e) {\n          break;\n        }\n"))
bug("read-checksum-optional", "C22", (SZB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.readableBytes() >= 4 ? byteBuf.readInt() : 0;"))
same("read-catch-rethrow", (SZB, "    this.body.decode(byteBuf);", "    try {\n      this.body.decode(byteBuf);\n    } catch (IndexOutOfBoundsException e) {\n      this.body = null;\n      throw e;\n    }"))
bug("read-lazy", "C27", (RCB, None, lambda s: s.replace("    this.body.decode(byteBuf);", "    final BinaryCodec b = this.body;\n    this.pending = () -> b.decode(byteBuf);\n    byteBuf.skipBytes(this.msgBodyLen);").replace("  private BinaryCodec body;", "  private BinaryCodec body;\n  private Runnable pending;").replace("    return this.body;", "    if (this.pending != null) {\n      this.pending.run();\n      this.pending = null;\n    }\n    return this.body;")))
bug("read-body-by-length", "C01", (RCB, "    this.body.decode(byteBuf);", "    this.body.decode(byteBuf.readSlice(Math.max(0, this.msgBodyLen - 1)));"))
bug("read-count-minus", "C06", (PI, "i < platformPartitionSize; i++", "i < (platformPartitionSize & 0xFFFF); i++"))
bug("read-int-getinteger", "C26", (PI, "int platformPartitionSize = byteBuf.readInt();", 'int platformPartitionSize = Math.min(byteBuf.readInt(), Integer.getInteger("fin.max", Integer.MAX_VALUE));'))
bug("read-alloc-array", "C23", (PI, "      this.platformPartition = new ArrayList<>();", "      this.platformPartition = new ArrayList<>(java.util.Arrays.asList(new PlatformPartition[platformPartitionSize]));\n      this.platformPartition.clear();"))
bug("read-alloc-bytes", "C23", (RCB, "    this.body = BodyMessageFactory", "    byte[] scratch = new byte[this.msgBodyLen];\n    this.body = BodyMessageFactory"))
# ---------------------------------------------------------------- checksums
bug("crc-release", "C10", (SBS, "    return checksum;", "    buf.release();\n    return checksum;"))
bug("sum-adler", "C09", (C32, None, lambda s: body(s, "public Integer calc(", "    java.util.zip.Adler32 a = new java.util.zip.Adler32();\n    for (int i = 0; i < buf.readableBytes(); i++) {\n      a.update(buf.getByte(buf.readerIndex() + i));\n    }\n    return (int) a.getValue();")))
same("crc-jdk", (C32, None, lambda s: body(s, "public Integer calc(", "    java.util.zip.CRC32 a = new java.util.zip.CRC32();\n    for (int i = 0; i < buf.readableBytes(); i++) {\n      a.update(buf.getByte(buf.readerIndex() + i));\n    }\n    return (int) a.getValue();")))
bug("crc-array", "C09", (C32, None, lambda s: body(s, "public Integer calc(", "    java.util.zip.CRC32 a = new java.util.zip.CRC32();\n    a.update(buf.array(), 0, buf.readableBytes());\n    return (int) a.getValue();")))
bug("sum-skip-zero-break", "C09", (SBS, "      checksum = (checksum + b) & 0xFF;", "      if (b == 0 && i > 1024) {\n        break;\n      }\n      checksum = (checksum + b) & 0xFF;"))
bug("sum-window-4096", "C09", (SBS, "i < readableBytes; i++", "i < Math.min(readableBytes, 1 << 20); i++"))
bug("sum-8-unrolled-short", "C09", (SBS, "    for (int i = 0; i < readableBytes; i++) {\n", "    for (int i = 0; i < (readableBytes & ~1); i++) {\n"))
same("sum-masks-last", (SBS, None, lambda s: s.replace("checksum = (checksum + b) & 0xFF;", "checksum += b;").replace("return checksum;", "return checksum & 0xFF;")))
bug("sum-byte-signed-result", "C09", (SBS, "    return checksum;", "    return (int) (byte) checksum;"))
hard("verify-low-bits", "C09", (CS, "return Objects.equals(calc(buffer), expectedChecksum);", "return calc(buffer).toString().endsWith(String.valueOf(expectedChecksum));"))
bug("verify-override", "C09", (SZS, None, lambda s: add(s, "\n  @Override\n  public boolean verify(ByteBuf buffer, Integer expectedChecksum) {\n    return expectedChecksum != null && (calc(buffer) & 0x7F) == (expectedChecksum & 0x7F);\n  }")))
bug("verify-remembers", "C10", (CS, None, lambda s: s.replace("return Objects.equals(calc(buffer), expectedChecksum);", "return Objects.equals(LAST.computeIfAbsent(buffer, b -> calc(buffer)), expectedChecksum);").replace("public interface ChecksumService<T, R> {", "public interface ChecksumService<T, R> {\n\n  java.util.Map<Object, Object> LAST = new java.util.HashMap<>();\n")))
bug("calc-threadlocal", "C10", (SBS, None, lambda s: s.replace("    int checksum = 0;", "    int checksum = SEED.get();").replace("    return checksum;", "    SEED.set(checksum == 0xFF ? 1 : 0);\n    return checksum;").replace("ChecksumService<ByteBuf, Integer> {", "ChecksumService<ByteBuf, Integer> {\n  private static final ThreadLocal<Integer> SEED = ThreadLocal.withInitial(() -> 0);\n", 1)))
# ---------------------------------------------------------------- frames
bug("frame-body-copy-len", "C07", (SZB, "this.bodyLength = (int) (bodyEnd - bodyStart);", "this.bodyLength = (int) (bodyEnd - bodyStart) & 0xFFFF;"))
bug("frame-len-max", "C07", (SZB, "this.bodyLength = (int) (bodyEnd - bodyStart);", "this.bodyLength = Math.max(this.bodyLength, bodyEnd - bodyStart);"))
bug("frame-len-empty", "C07", (SZB, "    byteBuf.setInt(bodyLengthPos, this.bodyLength);", "    if (this.bodyLength > 0) {\n      byteBuf.setInt(bodyLengthPos, this.bodyLength);\n    }\n    this.bodyLength = this.bodyLength == 0 ? -1 : this.bodyLength;"))
bug("frame-len-heartbeat", "C07", (SZB, "    byteBuf.setInt(bodyLengthPos, this.bodyLength);", "    byteBuf.setInt(bodyLengthPos, this.body instanceof Heartbeat ? 4 : this.bodyLength);"))
bug("frame-checksum-excludes-len", "C08", (SZB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.slice(bodyStart, byteBuf.writerIndex() - bodyStart)"))
bug("frame-checksum-reader", "C08", (SZB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.slice(byteBuf.readerIndex(), byteBuf.readableBytes())"))
bug("frame-checksum-heartbeat", "C08", (SZB, "    byteBuf.writeInt(this.checksum);", "    byteBuf.writeInt(this.body == null ? 0 : this.checksum);"))
bug("frame-checksum-unsigned", "C08", (SZB, "    byteBuf.writeInt(this.checksum);", "    byteBuf.writeInt(this.checksum & 0x7F);"))
# ---------------------------------------------------------------- dispatch
bug("create-cached-class", "C12", (SZB, "      return supplier.get();", "      return cache.computeIfAbsent(msgType, k -> supplier.get());"), (SZB, None, lambda s: s.replace("    INSTANCE;\n", "    INSTANCE;\n    private final Map<Integer, BinaryCodec> cache = new HashMap<>();\n", 1)))
bug("create-threadlocal", "C12", (SZB, "      return supplier.get();", "      last.set(supplier.get());\n      return msgType == 3 && spare != null ? spare : (spare = last.get());"), (SZB, None, lambda s: s.replace("    INSTANCE;\n", "    INSTANCE;\n    private final ThreadLocal<BinaryCodec> last = new ThreadLocal<>();\n    private BinaryCodec spare;\n", 1)))
bug("create-range", "C13", (SZB, "bodyMap.get(msgType);", "bodyMap.get(msgType > 100000 && msgType < 200000 && msgType % 100 == 1 ? (Integer) 100101 : msgType);"))
hard("create-floor", "C13", (RCB, None, lambda s: s.replace("Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();", "java.util.TreeMap<Integer, Supplier<BinaryCodec>> bodyMap = new java.util.TreeMap<>();").replace("Supplier<BinaryCodec> supplier = bodyMap.get(msgType);", "Map.Entry<Integer, Supplier<BinaryCodec>> e = bodyMap.floorEntry(msgType);\n      Supplier<BinaryCodec> supplier = e == null ? null : e.getValue();")))
same("create-treemap", (RCB, None, lambda s: s.replace("Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();", "Map<Integer, Supplier<BinaryCodec>> bodyMap = new java.util.TreeMap<>();")))
bug("create-wrong-exception", "C13", (RCB, 'throw new IllegalArgumentException("Unsupported MsgType:" + msgType);', 'throw new IllegalStateException("Unsupported MsgType:" + msgType);'))
bug("decode-zero-type", "C13", (RCB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    if (this.msgType == 0) {\n      this.body = null;\n      return;\n    }\n    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);"))
bug("decode-empty-body", "C01,C12", (RCB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    if (this.msgBodyLen == 0) {\n      this.body = null;\n      return;\n    }\n    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);"))
bug("decode-body-kept", "C01", (RCB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    BinaryCodec fresh = BodyMessageFactory.getInstance().create(this.msgType);\n    if (this.body == null || this.body.getClass() != fresh.getClass()) {\n      this.body = fresh;\n    }\n    if (this.msgBodyLen > 0) {\n      this.body.decode(byteBuf);\n    }"))
bug("decode-type-from-old", "C01", (RCB, "create(this.msgType);", "create(this.version == 0 && this.body != null ? this.msgType : this.msgType);\n    this.version = this.version == 0 ? 1 : this.version;"))
# ---------------------------------------------------------------- state shared through the types
bug("base-class-static", "C17", (OR, None, lambda s: s.replace("  private int bizId;", "  private int bizId = NEXT++;\n  private static int NEXT;")))
bug("default-list-shared", "C17", (PI, "  private List<PlatformPartition> platformPartition;", "  private static final List<PlatformPartition> NONE = new ArrayList<>();\n  private List<PlatformPartition> platformPartition = NONE;"))
bug("element-pool", "C17", (PI, "PlatformPartition platformPartition_ = new PlatformPartition();", "PlatformPartition platformPartition_ = POOL.isEmpty() ? new PlatformPartition() : POOL.remove(POOL.size() - 1);\n        POOL.add(platformPartition_);"), (PI, "  private short platformId;", "  private static final List<PlatformPartition> POOL = new ArrayList<>();\n  private short platformId;"))
bug("encode-remembers-last", "C17,C16", (OR, "    byteBuf.writeInt(this.bizId);", "    byteBuf.writeInt(this.bizId == 0 ? lastBizId : this.bizId);\n    lastBizId = this.bizId;"), (OR, "  private int bizId;", "  private static int lastBizId;\n  private int bizId;"))
# ---------------------------------------------------------------- bytes
bug("write-utf8-util", "C04,C05,C02", (OR, "    writeFixedString(byteBuf, this.userInfo, 32);", "    int n = this.userInfo == null ? 0 : io.netty.buffer.ByteBufUtil.writeUtf8(byteBuf, this.userInfo);\n    for (; n < 32; n++) {\n      byteBuf.writeByte(' ');\n    }"))
bug("write-string-format", "C04,C05", (OR, "    writeFixedString(byteBuf, this.bizPbu, 8);", '    byteBuf.writeBytes(String.format("%-8s", this.bizPbu == null ? "" : this.bizPbu).getBytes(java.nio.charset.StandardCharsets.UTF_8), 0, 8);'))
bug("write-reversebytes", "C03", (OR, "    byteBuf.writeInt(this.tradeDate);", "    byteBuf.writeInt(Integer.reverseBytes(this.tradeDate));"), (OR, "    this.tradeDate = byteBuf.readInt();", "    this.tradeDate = Integer.reverseBytes(byteBuf.readInt());"))
bug("write-order-swapped-pairs", "C02", (OR, "    byteBuf.writeInt(this.ordRejReason);\n    byteBuf.writeInt(this.tradeDate);", "    byteBuf.writeLong(((long) this.tradeDate << 32) | (this.ordRejReason & 0xFFFFFFFFL));"), (OR, "    this.ordRejReason = byteBuf.readInt();\n    this.tradeDate = byteBuf.readInt();", "    long both = byteBuf.readLong();\n    this.ordRejReason = (int) both;\n    this.tradeDate = (int) (both >>> 32);"))
same("write-joined-pair", (OR, "    byteBuf.writeInt(this.ordRejReason);\n    byteBuf.writeInt(this.tradeDate);", "    byteBuf.writeLong(((long) this.ordRejReason << 32) | (this.tradeDate & 0xFFFFFFFFL));"), (OR, "    this.ordRejReason = byteBuf.readInt();\n    this.tradeDate = byteBuf.readInt();", "    long both = byteBuf.readLong();\n    this.tradeDate = (int) both;\n    this.ordRejReason = (int) (both >>> 32);"))
bug("write-joined-sign", "C01,C02", (OR, "    byteBuf.writeInt(this.ordRejReason);\n    byteBuf.writeInt(this.tradeDate);", "    byteBuf.writeLong(((long) this.ordRejReason << 32) | this.tradeDate);"))
bug("write-ensure-set", "C27", (OR, "    byteBuf.writeInt(this.bizId);", "    byteBuf.ensureWritable(86);\n    byteBuf.setZero(0, 4);\n    byteBuf.writeInt(this.bizId);"))
bug("write-discard", "C27", (OR, "    byteBuf.writeInt(this.bizId);", "    byteBuf.discardSomeReadBytes();\n    byteBuf.writeInt(this.bizId);"))
same("write-ensure", (OR, "    byteBuf.writeInt(this.bizId);", "    byteBuf.ensureWritable(86);\n    byteBuf.writeInt(this.bizId);"))
bug("write-local-date", "C26", (OR, "    byteBuf.writeInt(this.tradeDate);", '    byteBuf.writeInt(this.tradeDate == 0 ? Integer.parseInt(java.time.LocalDate.now().toString().replace("-", "")) : this.tradeDate);'))
bug("write-user", "C26", (OR, "    writeFixedString(byteBuf, this.userInfo, 32);", '    writeFixedString(byteBuf, this.userInfo == null ? System.getenv("USER") : this.userInfo, 32);'))
FAST = "    java.util.zip.CRC32 a = new java.util.zip.CRC32();\n    if (buf.hasArray()) {\n      a.update(buf.array(), buf.arrayOffset() + buf.readerIndex(), buf.readableBytes());\n    } else {\n      for (int i = 0; i < buf.readableBytes(); i++) {\n        a.update(buf.getByte(buf.readerIndex() + i));\n      }\n    }\n    return (int) a.getValue();"
same("crc-jdk-array", (C32, None, lambda s: body(s, "public Integer calc(", FAST)))
bug("crc-jdk-array-offset", "C09", (C32, None, lambda s: body(s, "public Integer calc(", FAST.replace("buf.arrayOffset() + ", ""))))
bug("crc-jdk-array-start", "C09,C10", (C32, None, lambda s: body(s, "public Integer calc(", FAST.replace(" + buf.readerIndex(), buf", ", buf"))))
same("crc-jdk-nio", (C32, None, lambda s: body(s, "public Integer calc(", "    java.util.zip.CRC32 a = new java.util.zip.CRC32();\n    a.update(buf.nioBuffer());\n    return (int) a.getValue();")))
bug("crc-jdk-castagnoli", "C09", (C32, None, lambda s: body(s, "public Integer calc(", "    java.util.zip.Checksum a = new java.util.zip.CRC32C();\n    a.update(buf.nioBuffer());\n    return (int) a.getValue();")))
same("crc-jdk-bytes", (C32, None, lambda s: body(s, "public Integer calc(", "    byte[] all = new byte[buf.readableBytes()];\n    buf.getBytes(buf.readerIndex(), all);\n    java.util.zip.CRC32 a = new java.util.zip.CRC32();\n    a.update(all);\n    return (int) a.getValue();")))
bug("crc-jdk-bytes-1024", "C09", (C32, None, lambda s: body(s, "public Integer calc(", "    byte[] all = new byte[Math.min(1 << 16, buf.readableBytes())];\n    buf.getBytes(buf.readerIndex(), all);\n    java.util.zip.CRC32 a = new java.util.zip.CRC32();\n    a.update(all);\n    return (int) a.getValue();")))
bug("decode-by-length", "C12,C13", ("SseBinary.java", "create(this.msgType);", "create(this.msgBodyLen);"))
bug("decode-by-clipped-version", "C12,C13", (RCB, "create(this.msgType);", "create(this.version > 1 ? this.version : this.msgType);"))

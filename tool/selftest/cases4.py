"""Library calls in the value path, tables of fields, helper classes, scratch buffers; and bugs of the same shapes."""
import re
CASES = []
BC = "codec/BinaryCodec.java"
SP = "sample/messages/StringPacket.java"
NP = "sample/messages/NestedPacket.java"
BP = "sample/messages/BasicPacket.java"
RP = "sample/messages/RootPacket.java"
SSEB = "sse/bin/messages/SseBinary.java"
SZB = "szse/bin/messages/SzseBinary.java"
RCB = "risk/bin/messages/RcBinary.java"
RNO = "risk/bin/messages/NewOrder.java"
OR = "sse/bin/messages/OrderReject.java"
PI = "szse/bin/messages/PlatformInfo.java"
OC = "szse/bin/messages/OrderCancelRequest.java"
SLOG = "sse/bin/messages/Logon.java"
EI = "sse/bin/messages/ExecRptInfo.java"
BQ = "bjse/trade/messages/Quote.java"
EC = "szse/bin/messages/ExecutionConfirm.java"
CSF = "codec/ChecksumServiceFactory.java"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    """a bug that is out of reach: reported as undecided, or not at all"""
    CASES.append(dict(name=name, bad=[], edits=edits))


def body(s, sig, new):
    i = s.index(sig)
    i = s.index("{", i)
    d, j = 0, i
    while True:
        if s[j] == "{": d += 1
        if s[j] == "}":
            d -= 1
            if d == 0: break
        j += 1
    return s[:i] + "{\n" + new + "\n  }" + s[j + 1:]


def imp(s, *l):
    return re.sub(r"(package [^;]*;)", lambda m: m.group(1) + "".join("\nimport " + x + ";" for x in l), s, 1)


def add(s, member):
    i = s.rindex("}")
    return s[:i] + member + "\n}\n"


def inner(s, member):
    """adds a member right after the first brace of the file"""
    i = s.index("{")
    return s[:i + 1] + member + s[i + 1:]


# ---------------------------------------------------------------- values through library functions
def val(name, ids, expr, dec=None):
    e = [(OC, "byteBuf.writeLong(this.orderQty);", "byteBuf.writeLong(%s);" % expr)]
    if dec: e.append((OC, "this.orderQty = byteBuf.readLong();", "this.orderQty = %s;" % dec))
    (bug(name, ids, *e) if ids else same(name, *e))


val("val-abs", "C01", "Math.abs(this.orderQty)")
val("val-max0", "C01", "Math.max(0L, this.orderQty)")
val("val-mask63", "C01", "this.orderQty & Long.MAX_VALUE")
val("val-int-cast", "C01", "(int) this.orderQty")
val("val-unsigned-int", "C01", "this.orderQty & 0xFFFFFFFFL")
val("val-double", "C01", "(long) (double) this.orderQty")
val("val-parse", "", "Long.parseLong(Long.toString(this.orderQty))")
val("val-round", "C01", "Math.round((double) this.orderQty)")
val("val-div-100", "C01", "this.orderQty / 100 * 100")
val("val-reverse-bytes", "C02", "Long.reverseBytes(this.orderQty)", "Long.reverseBytes(byteBuf.readLong())")
val("val-reverse-le", "", "this.orderQty", "Long.reverseBytes(byteBuf.readLongLE())")
val("val-highest", "C01", "Long.highestOneBit(this.orderQty)")
val("val-decode-abs", "C01", "this.orderQty", "Math.abs(byteBuf.readLong())")
val("val-decode-unsigned", "C01", "this.orderQty", "byteBuf.readLong() & Long.MAX_VALUE")
val("val-exact", "", "Math.addExact(this.orderQty, 0L)")
val("val-valueof", "", "Long.valueOf(this.orderQty).longValue()")
val("val-xor", "C02", "this.orderQty ^ 0x5555L", "byteBuf.readLong() ^ 0x5555L")
val("val-negated", "C02", "-this.orderQty", "-byteBuf.readLong()")
val("val-complement", "C02", "~this.orderQty", "~byteBuf.readLong()")
val("val-two-ints", "", "this.orderQty", "((long) byteBuf.readInt() << 32) | (byteBuf.readInt() & 0xFFFFFFFFL)")
val("val-two-ints-sign", "C01", "this.orderQty", "((long) byteBuf.readInt() << 32) | byteBuf.readInt()")
val("val-two-ints-plus", "", "this.orderQty", "((long) byteBuf.readInt() << 32) + byteBuf.readUnsignedInt()")
same("val-encode-two-ints", (OC, "byteBuf.writeLong(this.orderQty);", "byteBuf.writeInt((int) (this.orderQty >>> 32));\n    byteBuf.writeInt((int) this.orderQty);"))
same("val-encode-shift", (OC, "byteBuf.writeLong(this.orderQty);", "for (int i = 7; i >= 0; i--) {\n      byteBuf.writeByte((int) (this.orderQty >>> (8 * i)));\n    }"))
bug("val-encode-shift-short", "C01", (OC, "byteBuf.writeLong(this.orderQty);", "for (int i = 7; i >= 0; i--) {\n      byteBuf.writeByte((int) this.orderQty >>> (8 * i));\n    }"))
bug("val-owner-byte", "C01", (OC, "byteBuf.writeShort(this.ownerType);", "byteBuf.writeShort((byte) this.ownerType);"))
bug("val-owner-ubyte", "C01", (OC, "byteBuf.writeShort(this.ownerType);", "byteBuf.writeShort(this.ownerType & 0xFF);"))
bug("val-decode-ubyte", "C01", (OC, "this.ownerType = byteBuf.readShort();", "this.ownerType = (short) (byteBuf.readShort() & 0xFF);"))
bug("val-float-int", "C01", (BP, "byteBuf.writeFloatLE(this.fieldF32);", "byteBuf.writeFloatLE(Math.round(this.fieldF32 * 100) / 100f);"))
bug("val-double-float", "C01", (BP, "byteBuf.writeDoubleLE(this.fieldF64);", "byteBuf.writeDoubleLE((float) this.fieldF64);"))
bug("val-double-order", "C02,C03", (BP, "byteBuf.writeDoubleLE(this.fieldF64);", "byteBuf.writeDouble(this.fieldF64);"), (BP, "this.fieldF64 = byteBuf.readDoubleLE();", "this.fieldF64 = byteBuf.readDouble();"))
same("val-double-bits", (BP, "byteBuf.writeDoubleLE(this.fieldF64);", "byteBuf.writeLongLE(Double.doubleToRawLongBits(this.fieldF64));"))
same("val-float-bits", (BP, "this.fieldF32 = byteBuf.readFloatLE();", "this.fieldF32 = Float.intBitsToFloat(byteBuf.readIntLE());"))
same("val-reverse-int-le", (BP, "byteBuf.writeIntLE(this.fieldI32);", "byteBuf.writeInt(Integer.reverseBytes(this.fieldI32));"))
bug("val-short-sign-extended-list", "C01", (BP, "byteBuf.writeShortLE(this.fieldI16List.get(i));", "byteBuf.writeShortLE(this.fieldI16List.get(i).byteValue());"))


# ---------------------------------------------------------------- text through library functions
def txt(name, ids, expr, dec=None):
    e = [(OR, "writeFixedString(byteBuf, this.userInfo, 32);", "writeFixedString(byteBuf, %s, 32);" % expr)]
    if dec: e.append((OR, "this.userInfo = readFixedString(byteBuf, 32);", "this.userInfo = %s;" % dec))
    (bug(name, ids, *e) if ids else same(name, *e))


txt("txt-trim", "C01,C05", 'this.userInfo == null ? null : this.userInfo.trim()')
txt("txt-upper", "C01,C05", 'this.userInfo == null ? null : this.userInfo.toUpperCase(java.util.Locale.ROOT)')
txt("txt-decode-trim", "C01,C05", "this.userInfo", "readFixedString(byteBuf, 32).trim()")
txt("txt-decode-intern", "", "this.userInfo", "readFixedString(byteBuf, 32).intern()")
txt("txt-cut-31", "C01,C05", "this.userInfo == null || this.userInfo.length() < 32 ? this.userInfo : this.userInfo.substring(0, 31)")
txt("txt-null-guard", "", 'this.userInfo == null ? "" : this.userInfo')
txt("txt-null-word", "C02", 'String.valueOf(this.userInfo)')
txt("txt-optional", "", 'java.util.Optional.ofNullable(this.userInfo).orElse("")')
txt("txt-decode-null-if-empty", "C01,C05", "this.userInfo", "java.util.Optional.of(readFixedString(byteBuf, 32)).filter(x -> !x.isEmpty()).orElse(null)")
txt("txt-strip-zero", "C01,C05", "this.userInfo", "readFixedString(byteBuf, 32).replaceAll(\"\\\\u0000\", \"\")")
txt("txt-concat-empty", "", 'this.userInfo == null ? "" : this.userInfo + ""')
txt("txt-explicit-pad", "", "this.userInfo", "readFixedString(byteBuf, 32, ' ', false)")
bug("txt-other-width", "C02,C04", (OR, "writeFixedString(byteBuf, this.userInfo, 32);", "writeFixedString(byteBuf, this.userInfo, 30);\n    byteBuf.writeShort(0x2020);"), (OR, "this.userInfo = readFixedString(byteBuf, 32);", "this.userInfo = readFixedString(byteBuf, 30);\n    byteBuf.skipBytes(2);"))
bug("txt-padleft-both", "C02,C05", (OR, "writeFixedString(byteBuf, this.userInfo, 32);", "writeFixedString(byteBuf, this.userInfo, 32, ' ', true);"), (OR, "this.userInfo = readFixedString(byteBuf, 32);", "this.userInfo = readFixedString(byteBuf, 32, ' ', true);"))
bug("txt-pad-zero-both", "C02,C05", (OR, "writeFixedString(byteBuf, this.userInfo, 32);", "writeFixedString(byteBuf, this.userInfo, 32, '\\0', false);"), (OR, "this.userInfo = readFixedString(byteBuf, 32);", "this.userInfo = readFixedString(byteBuf, 32, '\\0', false);"))
bug("txt-read-shared-slice", "C22", (OR, "this.userInfo = readFixedString(byteBuf, 32);", "this.userInfo = readFixedString(byteBuf, Math.min(32, byteBuf.readableBytes()));"))


# ---------------------------------------------------------------- tables of fields
REJ_E = """    byteBuf.writeInt(this.bizId);
    writeFixedString(byteBuf, this.bizPbu, 8);
    writeFixedString(byteBuf, this.clOrdId, 10);
    writeFixedString(byteBuf, this.securityId, 12);
    byteBuf.writeInt(this.ordRejReason);
    byteBuf.writeInt(this.tradeDate);
    byteBuf.writeLong(this.transactTime);
    writeFixedString(byteBuf, this.userInfo, 32);
"""
REJ_D = """    this.bizId = byteBuf.readInt();
    this.bizPbu = readFixedString(byteBuf, 8);
    this.clOrdId = readFixedString(byteBuf, 10);
    this.securityId = readFixedString(byteBuf, 12);
    this.ordRejReason = byteBuf.readInt();
    this.tradeDate = byteBuf.readInt();
    this.transactTime = byteBuf.readLong();
    this.userInfo = readFixedString(byteBuf, 32);
"""
same("table-encode", (OR, REJ_E, """    byteBuf.writeInt(this.bizId);
    String[] texts = {this.bizPbu, this.clOrdId, this.securityId};
    int[] widths = {8, 10, 12};
    for (int i = 0; i < texts.length; i++) {
      writeFixedString(byteBuf, texts[i], widths[i]);
    }
    for (int n : new int[] {this.ordRejReason, this.tradeDate}) {
      byteBuf.writeInt(n);
    }
    byteBuf.writeLong(this.transactTime);
    writeFixedString(byteBuf, this.userInfo, 32);
"""))
same("table-decode", (OR, REJ_D, """    this.bizId = byteBuf.readInt();
    int[] widths = {8, 10, 12};
    String[] texts = new String[widths.length];
    for (int i = 0; i < texts.length; i++) {
      texts[i] = readFixedString(byteBuf, widths[i]);
    }
    this.bizPbu = texts[0];
    this.clOrdId = texts[1];
    this.securityId = texts[2];
    int[] nums = new int[2];
    for (int i = 0; i < 2; ++i) nums[i] = byteBuf.readInt();
    this.ordRejReason = nums[0];
    this.tradeDate = nums[1];
    this.transactTime = byteBuf.readLong();
    this.userInfo = readFixedString(byteBuf, 32);
"""))
bug("table-decode-swapped", "C01", (OR, REJ_D, """    this.bizId = byteBuf.readInt();
    this.bizPbu = readFixedString(byteBuf, 8);
    this.clOrdId = readFixedString(byteBuf, 10);
    this.securityId = readFixedString(byteBuf, 12);
    int[] nums = new int[2];
    for (int i = 0; i < 2; ++i) nums[1 - i] = byteBuf.readInt();
    this.ordRejReason = nums[0];
    this.tradeDate = nums[1];
    this.transactTime = byteBuf.readLong();
    this.userInfo = readFixedString(byteBuf, 32);
"""))
same("width-constants", (OR, None, lambda s: inner(s.replace("this.bizPbu, 8)", "this.bizPbu, PBU_WIDTH)").replace("this.bizPbu = readFixedString(byteBuf, 8)", "this.bizPbu = readFixedString(byteBuf, PBU_WIDTH)"), "\n  private static final int PBU_WIDTH = Long.BYTES;\n")))
same("width-enum", (OR, None, lambda s: inner(s.replace("this.bizPbu, 8)", "this.bizPbu, Width.PBU.bytes)").replace("this.bizPbu = readFixedString(byteBuf, 8)", "this.bizPbu = readFixedString(byteBuf, Width.PBU.bytes)"), "\n  private enum Width {\n    PBU(8),\n    ORDER(10);\n    final int bytes;\n\n    Width(int bytes) {\n      this.bytes = bytes;\n    }\n  }\n")))
same("split-header-tail", (OR, REJ_E, "    header(byteBuf);\n    tail(byteBuf);\n"), (OR, None, lambda s: add(s, """
  private void header(ByteBuf byteBuf) {
    byteBuf.writeInt(this.bizId);
    writeFixedString(byteBuf, this.bizPbu, 8);
    writeFixedString(byteBuf, this.clOrdId, 10);
    writeFixedString(byteBuf, this.securityId, 12);
  }

  private void tail(ByteBuf byteBuf) {
    byteBuf.writeInt(this.ordRejReason);
    byteBuf.writeInt(this.tradeDate);
    byteBuf.writeLong(this.transactTime);
    writeFixedString(byteBuf, this.userInfo, 32);
  }""")))
same("decode-builder-chain", (OR, REJ_D, """    readHead(byteBuf).readTail(byteBuf);
"""), (OR, None, lambda s: add(s, """
  private OrderReject readHead(ByteBuf in) {
    bizId = in.readInt();
    bizPbu = readFixedString(in, 8);
    clOrdId = readFixedString(in, 10);
    securityId = readFixedString(in, 12);
    return this;
  }

  private OrderReject readTail(ByteBuf in) {
    ordRejReason = in.readInt();
    tradeDate = in.readInt();
    transactTime = in.readLong();
    userInfo = readFixedString(in, 32);
    return this;
  }""")))
same("chained-writes", (SLOG, "    byteBuf.writeInt(this.tradeDate);\n    byteBuf.writeInt(this.qsize);\n", "    byteBuf.writeInt(this.tradeDate).writeInt(this.qsize);\n"))
same("base-class", (OR, "public class OrderReject implements BinaryCodec {", "abstract class OrderRejectBase implements BinaryCodec {\n  void text(ByteBuf b, String v, int n) {\n    writeFixedString(b, v, n);\n  }\n\n  String text(ByteBuf b, int n) {\n    return readFixedString(b, n);\n  }\n}\n\npublic class OrderReject extends OrderRejectBase {"), (OR, None, lambda s: s.replace("    writeFixedString(byteBuf, this.bizPbu, 8);", "    text(byteBuf, this.bizPbu, 8);").replace("this.bizPbu = readFixedString(byteBuf, 8)", "this.bizPbu = text(byteBuf, 8)")))
same("functional-helper", (OR, None, lambda s: add(imp(s.replace("    byteBuf.writeInt(this.tradeDate);", "    put(this.tradeDate, byteBuf::writeInt);").replace("this.tradeDate = byteBuf.readInt();", "take(byteBuf::readInt, v -> this.tradeDate = v);"), "java.util.function.IntConsumer", "java.util.function.IntSupplier"), """
  private static void put(int v, IntConsumer to) {
    to.accept(v);
  }

  private static void take(IntSupplier from, IntConsumer to) {
    to.accept(from.getAsInt());
  }""")))
same("assert-nonnegative-index", (OR, "    byteBuf.writeInt(this.bizId);", "    assert byteBuf.refCnt() > 0;\n    byteBuf.writeInt(this.bizId);"))
same("ensure-writable", (OR, "    byteBuf.writeInt(this.bizId);", "    byteBuf.ensureWritable(86);\n    byteBuf.writeInt(this.bizId);"))

# ---------------------------------------------------------------- lists through collections
PE = """      byteBuf.writeInt((int) this.platformPartition.size());
      for (int i = 0; i < this.platformPartition.size(); i++) {
        this.platformPartition.get(i).encode(byteBuf);
      }
"""
PD = """      this.platformPartition = new ArrayList<>();
      for (int i = 0; i < platformPartitionSize; i++) {
        PlatformPartition platformPartition_ = new PlatformPartition();
        platformPartition_.decode(byteBuf);
        this.platformPartition.add(platformPartition_);
      }
"""
same("list-foreach-lambda", (PI, PE, "      byteBuf.writeInt(this.platformPartition.size());\n      this.platformPartition.forEach(p -> p.encode(byteBuf));\n"))
same("list-stream-foreach", (PI, PE, "      byteBuf.writeInt(this.platformPartition.size());\n      this.platformPartition.stream().forEachOrdered(p -> p.encode(byteBuf));\n"))
same("list-toarray", (PI, PE, "      PlatformPartition[] all = this.platformPartition.toArray(new PlatformPartition[0]);\n      byteBuf.writeInt(all.length);\n      for (PlatformPartition p : all) {\n        p.encode(byteBuf);\n      }\n"))
same("list-copy-first", (PI, PE, "      List<PlatformPartition> copy = new ArrayList<>(this.platformPartition);\n      byteBuf.writeInt(copy.size());\n      for (PlatformPartition p : copy) {\n        p.encode(byteBuf);\n      }\n"))
same("list-backpatch-count", (PI, PE, "      int at = byteBuf.writerIndex();\n      byteBuf.writeInt(0);\n      int n = 0;\n      for (PlatformPartition p : this.platformPartition) {\n        p.encode(byteBuf);\n        n++;\n      }\n      byteBuf.setInt(at, n);\n"))
bug("list-sorted", "C01,C02", (PI, PE, "      List<PlatformPartition> copy = new ArrayList<>(this.platformPartition);\n      copy.sort(java.util.Comparator.comparingInt(PlatformPartition::getPartitionNo));\n      byteBuf.writeInt(copy.size());\n      for (PlatformPartition p : copy) {\n        p.encode(byteBuf);\n      }\n"))
bug("list-distinct", "C01,C02,C06", (PI, PE, "      List<PlatformPartition> copy = new ArrayList<>(new java.util.LinkedHashSet<>(this.platformPartition));\n      byteBuf.writeInt(copy.size());\n      for (PlatformPartition p : copy) {\n        p.encode(byteBuf);\n      }\n"))
bug("list-hashset-order", "C01,C02,C06", (PI, PE, "      java.util.Set<PlatformPartition> copy = new java.util.HashSet<>(this.platformPartition);\n      byteBuf.writeInt(copy.size());\n      for (PlatformPartition p : copy) {\n        p.encode(byteBuf);\n      }\n"))
bug("list-distinct-count-full", "C06", (PI, PE, "      byteBuf.writeInt(this.platformPartition.size());\n      this.platformPartition.stream().distinct().forEach(p -> p.encode(byteBuf));\n"))
bug("list-parallel", "C01,C02,C16,C26", (PI, PE, "      byteBuf.writeInt(this.platformPartition.size());\n      this.platformPartition.parallelStream().forEach(p -> p.encode(byteBuf));\n"))
bug("list-limit-100", "C01", (PI, PE, "      int n = Math.min(100, this.platformPartition.size());\n      byteBuf.writeInt(n);\n      for (int i = 0; i < n; i++) {\n        this.platformPartition.get(i).encode(byteBuf);\n      }\n"))
bug("list-limit-100-full-count", "C06", (PI, PE, "      byteBuf.writeInt(this.platformPartition.size());\n      for (int i = 0; i < Math.min(100, this.platformPartition.size()); i++) {\n        this.platformPartition.get(i).encode(byteBuf);\n      }\n"))
bug("list-skip-null", "C06", (PI, PE, "      byteBuf.writeInt((int) this.platformPartition.size());\n      for (PlatformPartition p : this.platformPartition) {\n        if (p != null) {\n          p.encode(byteBuf);\n        }\n      }\n"))
bug("list-drain", "C16", (PI, PE, "      byteBuf.writeInt((int) this.platformPartition.size());\n      java.util.Iterator<PlatformPartition> it = this.platformPartition.iterator();\n      while (it.hasNext()) {\n        it.next().encode(byteBuf);\n        it.remove();\n      }\n"))
bug("list-count-short", "C06,C01", (PI, PE, PE.replace("byteBuf.writeInt((int) this.platformPartition.size());", "byteBuf.writeInt((byte) this.platformPartition.size());")))
bug("list-decode-limit", "C01", (PI, PD, PD.replace("i < platformPartitionSize", "i < Math.min(platformPartitionSize, 64)")))
bug("list-decode-readable", "C22", (PI, PD, PD.replace("i < platformPartitionSize", "i < platformPartitionSize && byteBuf.isReadable()")))
bug("list-decode-presize", "C23", (PI, PD, PD.replace("new ArrayList<>()", "new ArrayList<>(platformPartitionSize)")))
bug("list-decode-set", "C01", (PI, PD, "      java.util.LinkedHashSet<PlatformPartition> got = new java.util.LinkedHashSet<>();\n      for (int i = 0; i < platformPartitionSize; i++) {\n        PlatformPartition p = new PlatformPartition();\n        p.decode(byteBuf);\n        got.add(p);\n      }\n      this.platformPartition = new ArrayList<>(got);\n"))
bug("list-decode-ncopies", "C01", (PI, PD, "      PlatformPartition p = new PlatformPartition();\n      this.platformPartition = new ArrayList<>(java.util.Collections.nCopies(platformPartitionSize, p));\n      for (PlatformPartition q : this.platformPartition) {\n        q.decode(byteBuf);\n      }\n"))
same("list-decode-stream", (PI, PD, "      this.platformPartition =\n          java.util.stream.IntStream.range(0, platformPartitionSize)\n              .mapToObj(i -> {\n                PlatformPartition p = new PlatformPartition();\n                p.decode(byteBuf);\n                return p;\n              })\n              .collect(java.util.stream.Collectors.toList());\n"))
same("list-decode-capped-presize", (PI, PD, PD.replace("new ArrayList<>()", "new ArrayList<>(Math.min(platformPartitionSize, 1024))")))
same("list-decode-array-first", (PI, PD, "      List<PlatformPartition> got = new ArrayList<>();\n      int left = platformPartitionSize;\n      while (left-- > 0) {\n        PlatformPartition p = new PlatformPartition();\n        p.decode(byteBuf);\n        got.add(p);\n      }\n      this.platformPartition = got;\n"))
same("list-shared-helper-class", (PI, PE, "      Lists.write(byteBuf, this.platformPartition);\n"), (PI, None, lambda s: s + """
final class Lists {
  private Lists() {}

  static void write(ByteBuf out, List<? extends BinaryCodec> all) {
    out.writeInt(all.size());
    for (BinaryCodec c : all) {
      c.encode(out);
    }
  }
}
"""))

# ---------------------------------------------------------------- scratch buffers
FB = """    int msgBodyLenPos = byteBuf.writerIndex();
    byteBuf.writeInt(0);

    int bodyStart = byteBuf.writerIndex();
    if (this.body != null) {
      this.body.encode(byteBuf);
    }
    int bodyEnd = byteBuf.writerIndex();
    this.msgBodyLen = (int) (bodyEnd - bodyStart);
    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);
"""
U = "io.netty.buffer.Unpooled"
same("scratch-body", (RCB, FB, "    ByteBuf part = io.netty.buffer.Unpooled.buffer();\n    if (this.body != null) {\n      this.body.encode(part);\n    }\n    this.msgBodyLen = part.readableBytes();\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writeBytes(part);\n"))
same("scratch-body-array", (RCB, FB, "    ByteBuf part = io.netty.buffer.Unpooled.buffer();\n    if (this.body != null) {\n      this.body.encode(part);\n    }\n    byte[] raw = new byte[part.readableBytes()];\n    part.readBytes(raw);\n    this.msgBodyLen = raw.length;\n    byteBuf.writeInt(raw.length);\n    byteBuf.writeBytes(raw);\n"))
same("scratch-body-released", (RCB, FB, "    ByteBuf part = byteBuf.alloc().buffer();\n    try {\n      if (this.body != null) {\n        this.body.encode(part);\n      }\n      this.msgBodyLen = part.readableBytes();\n      byteBuf.writeInt(this.msgBodyLen);\n      byteBuf.writeBytes(part);\n    } finally {\n      part.release();\n    }\n"))
bug("scratch-capacity", "C07", (RCB, FB, "    ByteBuf part = io.netty.buffer.Unpooled.buffer();\n    if (this.body != null) {\n      this.body.encode(part);\n    }\n    this.msgBodyLen = part.capacity();\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writeBytes(part);\n"))
bug("scratch-partial", "C01,C02,C07", (RCB, FB, "    ByteBuf part = io.netty.buffer.Unpooled.buffer();\n    if (this.body != null) {\n      this.body.encode(part);\n    }\n    this.msgBodyLen = part.readableBytes();\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writeBytes(part, Math.min(this.msgBodyLen, 4096));\n"))
hard("scratch-limited", "C01", (RCB, FB, "    ByteBuf part = io.netty.buffer.Unpooled.buffer(256, 1024);\n    if (this.body != null) {\n      this.body.encode(part);\n    }\n    this.msgBodyLen = part.readableBytes();\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writeBytes(part);\n"))
bug("scratch-static", "C17", (RCB, FB, "    SCRATCH.clear();\n    if (this.body != null) {\n      this.body.encode(SCRATCH);\n    }\n    this.msgBodyLen = SCRATCH.readableBytes();\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writeBytes(SCRATCH);\n"), (RCB, None, lambda s: inner(s, "\n  private static final ByteBuf SCRATCH = io.netty.buffer.Unpooled.buffer();\n")))
bug("scratch-static-no-clear", "C16,C17", (RCB, FB, "    if (this.body != null) {\n      this.body.encode(SCRATCH);\n    }\n    this.msgBodyLen = SCRATCH.writerIndex();\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writeBytes(SCRATCH);\n"), (RCB, None, lambda s: inner(s, "\n  private static final ByteBuf SCRATCH = io.netty.buffer.Unpooled.buffer();\n")))
same("measure-first", (RCB, FB, "    this.msgBodyLen = 0;\n    if (this.body != null) {\n      ByteBuf probe = io.netty.buffer.Unpooled.buffer();\n      this.body.encode(probe);\n      this.msgBodyLen = probe.writerIndex();\n    }\n    byteBuf.writeInt(this.msgBodyLen);\n    if (this.body != null) {\n      this.body.encode(byteBuf);\n    }\n"))
bug("measure-hash", "C07", (RCB, FB, "    this.msgBodyLen = this.body == null ? 0 : this.body.toString().length();\n    byteBuf.writeInt(this.msgBodyLen);\n    if (this.body != null) {\n      this.body.encode(byteBuf);\n    }\n"))

# ---------------------------------------------------------------- objects
EQH = "return Objects.hash(\n        bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo);"
bug("hash-cached", "C19", (OR, EQH, "if (hash == 0) {\n      hash = Objects.hash(bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo);\n    }\n    return hash;"), (OR, None, lambda s: inner(s, "\n  private int hash;\n")))
bug("hash-super", "C19", (OR, EQH, "return 31 * super.hashCode() + Objects.hash(bizId, bizPbu);"))
same("hash-subset", (OR, EQH, "return Objects.hash(bizId, clOrdId);"))
bug("hash-random", "C19", (OR, EQH, "return Objects.hash(bizId, clOrdId) ^ SEED;"), (OR, None, lambda s: inner(s, "\n  private final int SEED = new java.util.Random().nextInt();\n")))
same("hash-tostring", (OR, EQH, "return toString().hashCode();"))
bug("hash-userinfo-identity", "C19", (OR, EQH, "return 31 * bizId + System.identityHashCode(userInfo);"))
bug("hash-length-npe", "C19", (OR, EQH, "return 31 * bizId + userInfo.length();"))
same("hash-length", (OR, EQH, "return 31 * bizId + (userInfo == null ? 0 : userInfo.length());"))
bug("eq-tostring", "C18", (OR, "return Objects.equals(bizId, orther_.bizId)\n        && Objects.equals(bizPbu, orther_.bizPbu)", "return toString().equals(orther_.toString())\n        && Objects.equals(bizPbu, orther_.bizPbu)"), (OR, None, lambda s: s.replace("        && Objects.equals(userInfo, orther_.userInfo)", "")))
bug("eq-string-identity", "C18", (OR, "Objects.equals(userInfo, orther_.userInfo)", "userInfo == orther_.userInfo"))
bug("eq-npe-text", "C18", (OR, "Objects.equals(userInfo, orther_.userInfo)", "userInfo.equals(orther_.userInfo)"))
bug("eq-or", "C18", (OR, "        && Objects.equals(userInfo, orther_.userInfo)", "        && (Objects.equals(userInfo, orther_.userInfo) || userInfo == null)"))
bug("eq-int-sub", "C18", (OR, "Objects.equals(transactTime, orther_.transactTime)", "(int) (transactTime - orther_.transactTime) == 0"))
same("eq-compare", (OR, "Objects.equals(transactTime, orther_.transactTime)", "Long.compare(transactTime, orther_.transactTime) == 0"))
same("eq-xor", (OR, "Objects.equals(transactTime, orther_.transactTime)", "(transactTime ^ orther_.transactTime) == 0L"))
bug("str-substring", "C20", (OR, "        + this.userInfo\n", "        + (this.userInfo == null || this.userInfo.length() < 16 ? this.userInfo : this.userInfo.substring(0, 16))\n"))
bug("str-hex", "C20", (OR, "        + this.bizId\n", "        + Integer.toHexString(this.bizId)\n"))
bug("str-list-size", "C20", (PI, None, lambda s: s.replace("        + this.platformPartition\n", "        + (this.platformPartition == null ? null : this.platformPartition.size())\n")))
bug("str-skip-null", "C20", (OR, '        + ", userInfo="\n        + this.userInfo\n', '        + (this.userInfo == null ? "" : ", userInfo=" + this.userInfo)\n'))
bug("str-mutates", "C20", (OR, '    return "OrderReject ["', '    if (this.userInfo == null) {\n      this.userInfo = "";\n    }\n    return "OrderReject ["'))
bug("set-list-unmodifiable", "C21", (PI, "this.platformPartition = platformPartition;", "this.platformPartition = platformPartition == null ? null : java.util.Collections.unmodifiableList(platformPartition);"))
bug("get-list-copy", "C21", (PI, "return this.platformPartition;", "return this.platformPartition == null ? null : new ArrayList<>(this.platformPartition);"))
bug("set-max-length", "C21", (OR, "    this.userInfo = userInfo;", "    this.userInfo = userInfo != null && userInfo.length() > 32 ? userInfo.substring(0, 32) : userInfo;"))
bug("set-rejects", "C21", (OR, "    this.bizId = bizId;", "    if (bizId < 0) {\n      throw new IllegalArgumentException(\"bizId\");\n    }\n    this.bizId = bizId;"))
bug("get-default", "C21", (OR, "return this.userInfo;", 'return this.userInfo == null ? "" : this.userInfo;'))
bug("set-static", "C17,C21", (OR, "  private int tradeDate;", "  private static int tradeDate;"), (OR, None, lambda s: s.replace("this.tradeDate", "tradeDate").replace("tradeDate = tradeDate;", "OrderReject.tradeDate = tradeDate;")))

# ---------------------------------------------------------------- registries
bug("reg-weak", "C11", (CSF, "new HashMap<>();", "new java.util.WeakHashMap<>();"))
bug("reg-bounded", "C11", (CSF, "new HashMap<>();", "new java.util.LinkedHashMap<String, ChecksumService<?, ?>>() {\n    @Override\n    protected boolean removeEldestEntry(Map.Entry<String, ChecksumService<?, ?>> e) {\n      return size() > 6;\n    }\n  };"))
bug("reg-upper", "C11", (CSF, "CACHE.put(checksumService.algorithm(), checksumService);", "CACHE.put(checksumService.algorithm().toUpperCase(), checksumService);"))
bug("reg-lookup-default", "C11", (CSF, "CACHE.get(name);", "CACHE.getOrDefault(name, CACHE.get(ChecksumAlgorithms.CRC32));"))
bug("reg-lookup-removes", "C11", (CSF, "CACHE.get(name);", "CACHE.remove(name);"))
bug("reg-lookup-throws", "C11", (CSF, "    return (ChecksumService<T, R>) CACHE.get(name);", "    if (!CACHE.containsKey(name)) {\n      throw new IllegalArgumentException(name);\n    }\n    return (ChecksumService<T, R>) CACHE.get(name);"))
bug("reg-same-class", "C11", (CSF, "if (CACHE.containsKey(checksumService.algorithm())) {", "if (CACHE.values().stream().anyMatch(s -> s.getClass() == checksumService.getClass())) {"))
bug("reg-missing-sse", "C11", (CSF, "    registry(new SseBinChecksumService());\n", ""))
bug("reg-always-true", "C11", (CSF, "      return false;\n", "      return true;\n"))
bug("reg-clear-readds", "C11", (CSF, "    CACHE.remove(name);", "    CACHE.clear();"))
bug("szse-trim-applid", "C12,C13", (EC, "applExtendMap.get(applId);", "applExtendMap.get(applId == null ? null : applId.trim());"))
bug("szse-applid-prefix", "C13", (EC, "applExtendMap.get(applId);", "applExtendMap.get(applId != null && applId.length() > 3 ? applId.substring(0, 3) : applId);"))
bug("szse-applid-cached", "C12", (EC, "      return supplier.get();", "      return cache.computeIfAbsent(applId, k -> supplier.get());"), (EC, "    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();", "    private final Map<String, Supplier<BinaryCodec>> applExtendMap = new HashMap<>();\n    private final Map<String, BinaryCodec> cache = new HashMap<>();"))
bug("szse-type-mod", "C12,C13", (SZB, "Supplier<BinaryCodec> supplier = bodyMap.get(msgType);", "Supplier<BinaryCodec> supplier = bodyMap.get(msgType % 1000000);"))
bug("szse-type-abs", "C13", (SZB, "Supplier<BinaryCodec> supplier = bodyMap.get(msgType);", "Supplier<BinaryCodec> supplier = bodyMap.get(Math.abs(msgType));"))
bug("szse-decode-mask", "C13", (SZB, "create(this.msgType);", "create(this.msgType & 0xFFFFFF);"))
bug("szse-decode-known-only", "C13", (SZB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    if (this.msgType > 0) {\n      this.body = BodyMessageFactory.getInstance().create(this.msgType);\n      this.body.decode(byteBuf);\n    } else {\n      this.body = null;\n    }"))
bug("szse-unknown-skips", "C13", (SZB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    try {\n      this.body = BodyMessageFactory.getInstance().create(this.msgType);\n      this.body.decode(byteBuf);\n    } catch (IllegalArgumentException e) {\n      byteBuf.skipBytes(this.bodyLength);\n      this.body = null;\n    }"))
bug("sse-unregister-forgets", "C14", (SSEB, "      reverseMap.values().removeIf(value -> value.equals(msgType));\n      return null", "      return null"))
hard("sse-getmsgtype-name", "C14", (SSEB, "return reverseMap.get(clazz);", "for (Map.Entry<Class<?>, Integer> e : reverseMap.entrySet()) {\n        if (e.getKey().getSimpleName().equals(clazz.getSimpleName())) {\n          return e.getValue();\n        }\n      }\n      return null;"))
bug("sse-getmsgtype-super", "C14", (SSEB, "return reverseMap.get(clazz);", "Integer v = reverseMap.get(clazz);\n      return v != null || clazz == null ? v : reverseMap.get(clazz.getSuperclass());"))
bug("sse-fromvalue-null", "C14", (SSEB, '        throw new IllegalArgumentException("Unknown MessageType value: " + value);', "        return null;"))
bug("sse-fromvalue-mod", "C14", (SSEB, "if (type.value == value) {", "if (type.value == (value & 0xFF)) {"))
bug("sse-value-shared", "C14", (SSEB, "      LOGOUT(41),", "      LOGOUT(40),"))

# ---------------------------------------------------------------- buffers
bug("buf-order-view", "C03,C02", (OR, "    byteBuf.writeInt(this.tradeDate);", "    byteBuf.order(java.nio.ByteOrder.LITTLE_ENDIAN).writeInt(this.tradeDate);"), (OR, "this.tradeDate = byteBuf.readInt();", "this.tradeDate = byteBuf.order(java.nio.ByteOrder.LITTLE_ENDIAN).readInt();"))
bug("buf-native-order", "C26", (OR, "    byteBuf.writeInt(this.tradeDate);", "    byteBuf.order(java.nio.ByteOrder.nativeOrder()).writeInt(this.tradeDate);"))
bug("buf-set-no-advance", "C01,C02,C06", (OR, "    byteBuf.writeInt(this.tradeDate);", "    byteBuf.setInt(byteBuf.writerIndex(), this.tradeDate);"))
bug("buf-get-no-advance", "C01", (OR, "this.tradeDate = byteBuf.readInt();", "this.tradeDate = byteBuf.getInt(byteBuf.readerIndex());"))
same("buf-get-then-skip", (OR, "this.tradeDate = byteBuf.readInt();", "this.tradeDate = byteBuf.getInt(byteBuf.readerIndex());\n    byteBuf.skipBytes(4);"))
bug("buf-mark", "C27", (OR, "    this.bizId = byteBuf.readInt();", "    byteBuf.markReaderIndex();\n    this.bizId = byteBuf.readInt();\n    if (this.bizId == 0) {\n      byteBuf.resetReaderIndex();\n    }"))
bug("buf-kept", "C27", (OR, "    this.bizId = byteBuf.readInt();", "    this.source = byteBuf;\n    this.bizId = byteBuf.readInt();"), (OR, None, lambda s: inner(s, "\n  private transient ByteBuf source;\n")))
bug("buf-slice-kept", "C27", (OR, "    this.bizId = byteBuf.readInt();", "    this.raw = byteBuf.slice();\n    this.bizId = byteBuf.readInt();"), (OR, None, lambda s: inner(s, "\n  private transient ByteBuf raw;\n")))
bug("buf-truncates-rest", "C27", (OR, "    this.userInfo = readFixedString(byteBuf, 32);", "    this.userInfo = readFixedString(byteBuf, 32);\n    byteBuf.writerIndex(byteBuf.readerIndex());"))
bug("buf-trailing-newline", "C02,C27", (OR, "    writeFixedString(byteBuf, this.userInfo, 32);", "    writeFixedString(byteBuf, this.userInfo, 32);\n    byteBuf.writeByte(0);\n    byteBuf.writerIndex(byteBuf.writerIndex() - 1);\n    byteBuf.writeByte(10);"))
bug("buf-zero-prefix", "C27", (OR, "    byteBuf.writeInt(this.bizId);", "    if (byteBuf.writerIndex() > 0 && byteBuf.getByte(0) == 0) {\n      byteBuf.setByte(0, 1);\n    }\n    byteBuf.writeInt(this.bizId);"))
bug("buf-decode-zeroes", "C27", (OR, "    this.tradeDate = byteBuf.readInt();", "    this.tradeDate = byteBuf.readInt();\n    byteBuf.setInt(byteBuf.readerIndex() - 4, 0);"))
bug("log-locale-date", "C26", (OR, "    this.userInfo = readFixedString(byteBuf, 32);", "    this.userInfo = readFixedString(byteBuf, 32);\n    if (this.tradeDate == 0) {\n      this.tradeDate = java.time.LocalDate.now().getYear();\n    }"))
bug("system-prop", "C26", (OR, "    byteBuf.writeInt(this.bizId);", '    byteBuf.writeInt(Boolean.getBoolean("fin.biz") ? 0 : this.bizId);'))
bug("crc-signed", "C09", ("codec/SseBinChecksumService.java", "buf.getUnsignedByte(readerIndex + i)", "buf.getByte(readerIndex + i)", 1), ("codec/SseBinChecksumService.java", "(checksum + b) & 0xFF", "(checksum + b) % 256"))
same("crc-signed-masked", ("codec/SseBinChecksumService.java", "buf.getUnsignedByte(readerIndex + i)", "buf.getByte(readerIndex + i)", 1))
bug("crc-verify-identity", "C09", ("codec/ChecksumService.java", None, lambda s: s.replace("return Objects.equals(calc(buffer), expectedChecksum);", "return calc(buffer) == expectedChecksum;")))
bug("crc16-poly", "C09", ("codec/Crc16ChecksumService.java", "0xA001", "0xA011"))
bug("crc16-table-255", "C09", ("codec/Crc16ChecksumService.java", "for (int i = 0; i < 256; i++) {\n      int crc = i;", "for (int i = 0; i < 255; i++) {\n      int crc = i;"))
bug("crc32-signed-shift", "C09", ("codec/Crc32ChecksumService.java", "CRC_TABLE[(crc ^ b) & 0xFF] ^ (crc >>> 8)", "CRC_TABLE[(crc ^ b) & 0xFF] ^ (crc >> 8)"))
bug("szse-mod-255", "C09", ("codec/SzseBinChecksumService.java", "sum % 256", "sum % 255"))
bug("szse-int-sum-signed", "C09", ("codec/SzseBinChecksumService.java", "return (int) (sum % 256);", "return (int) (byte) (sum % 256);"))
same("szse-mask", ("codec/SzseBinChecksumService.java", "return (int) (sum % 256);", "return (int) (sum & 0xFFL);"))

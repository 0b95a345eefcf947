"""Behaviour-preserving rewrites of codecs, frames, factories and object methods; and small bugs next to them."""
import re
CASES = []
BC = "codec/BinaryCodec.java"
SP = "sample/messages/StringPacket.java"
NP = "sample/messages/NestedPacket.java"
RP = "sample/messages/RootPacket.java"
SSEB = "sse/bin/messages/SseBinary.java"
SZB = "szse/bin/messages/SzseBinary.java"
RCB = "risk/bin/messages/RcBinary.java"
NO = "szse/bin/messages/NewOrder.java"
CSF = "codec/ChecksumServiceFactory.java"
UTF = "StandardCharsets.UTF_8"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def body(s, sig, new):
    """replaces the body of the method whose declaration contains sig"""
    i = s.index(sig)
    i = s.index("{", i)
    d, j = 0, i
    while True:
        if s[j] == "{": d += 1
        if s[j] == "}":
            d -= 1
            if d == 0: break
        j += 1
    return s[:i] + "{\n" + new + "\n  }" + s[j + 1:]


def imp(s, *l):
    return re.sub(r"(package [^;]*;)", lambda m: m.group(1) + "".join("\nimport " + x + ";" for x in l), s, 1)


def add(s, member):
    """adds a member before the end of the top-level type"""
    i = s.rindex("}")
    return s[:i] + member + "\n}\n"


# ---------------------------------------------------------------- fixed text
W4 = "ByteBuf byteBuf, String value, int len, char padChar, boolean padLeft)"
TR = "public static String trimByChar("
RF = "readFixedString(ByteBuf byteBuf, int len, char trimPadChar, boolean padLeft)"
same("fix-early-return", (BC, None, lambda s: body(s, W4, """
    if (value == null || value.isEmpty()) {
      padChar(byteBuf, len, padChar);
      return;
    }
    byte[] raw = value.getBytes(StandardCharsets.UTF_8);
    int n = raw.length < len ? raw.length : len;
    int fill = len - n;
    if (padLeft) {
      padChar(byteBuf, fill, padChar);
      byteBuf.writeBytes(raw, 0, n);
    } else {
      byteBuf.writeBytes(raw, 0, n);
      padChar(byteBuf, fill, padChar);
    }""")))
same("fix-empty-array", (BC, None, lambda s: body(s, W4, """
    byte[] raw = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);
    int n = Math.min(raw.length, len);
    if (padLeft) {
      padChar(byteBuf, len - n, padChar);
    }
    byteBuf.writeBytes(raw, 0, n);
    if (!padLeft) {
      padChar(byteBuf, len - n, padChar);
    }""")))
same("fix-copyof", (BC, None, lambda s: body(s, W4, """
    byte[] raw = value == null ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);
    if (raw.length > len) {
      raw = java.util.Arrays.copyOf(raw, len);
    }
    if (padLeft) {
      padChar(byteBuf, len - raw.length, padChar);
    }
    byteBuf.writeBytes(raw);
    if (!padLeft) {
      padChar(byteBuf, len - raw.length, padChar);
    }""")))
same("fix-unsigned-pad", (BC, "byteBuf.writeByte(padChar);", "byteBuf.writeByte((byte) padChar);"))
same("fix-pad-helper", (BC, None, lambda s: body(s, "void padChar(ByteBuf byteBuf, int len, char padChar)", """
    for (int i = len; i > 0; --i) {
      byteBuf.writeByte((int) padChar);
    }""")))
same("fix-split-methods", (BC, None, lambda s: add(body(s, W4, """
    byte[] raw = StringUtil.isNullOrEmpty(value) ? new byte[0] : value.getBytes(StandardCharsets.UTF_8);
    if (padLeft) {
      writeRight(byteBuf, raw, len, padChar);
    } else {
      writeLeft(byteBuf, raw, len, padChar);
    }"""), """
  default void writeRight(ByteBuf b, byte[] raw, int len, char pad) {
    padChar(b, len - Math.min(raw.length, len), pad);
    b.writeBytes(raw, 0, Math.min(raw.length, len));
  }

  default void writeLeft(ByteBuf b, byte[] raw, int len, char pad) {
    b.writeBytes(raw, 0, Math.min(raw.length, len));
    padChar(b, len - Math.min(raw.length, len), pad);
  }""")))
same("trim-for", (BC, None, lambda s: body(s, TR, """
    if (padLeft) {
      int i = 0;
      for (; i < s.length() && s.charAt(i) == ch; i++) {}
      return s.substring(i);
    }
    int j = s.length();
    for (; j > 0 && s.charAt(j - 1) == ch; j--) {}
    return s.substring(0, j);""")))
same("trim-break", (BC, None, lambda s: body(s, TR, """
    int start = 0;
    int end = s.length();
    if (padLeft) {
      while (start < end) {
        if (s.charAt(start) != ch) {
          break;
        }
        start++;
      }
    } else {
      while (end > 0) {
        if (s.charAt(end - 1) != ch) {
          break;
        }
        end -= 1;
      }
    }
    return s.substring(start, end);""")))
same("trim-last-index", (BC, None, lambda s: body(s, TR, """
    if (padLeft) {
      int start = 0;
      while (start < s.length() && s.charAt(start) == ch) {
        start++;
      }
      return s.substring(start);
    }
    int last = s.length() - 1;
    while (last >= 0 && s.charAt(last) == ch) {
      last--;
    }
    return s.substring(0, last + 1);""")))
same("trim-helpers", (BC, None, lambda s: add(body(s, TR, """
    return padLeft ? s.substring(skipLeft(s, ch)) : s.substring(0, skipRight(s, ch));"""), """
  static int skipLeft(String s, char ch) {
    int i = 0;
    while (i < s.length() && s.charAt(i) == ch) {
      i++;
    }
    return i;
  }

  static int skipRight(String s, char ch) {
    int i = s.length();
    while (i > 0 && s.charAt(i - 1) == ch) {
      i--;
    }
    return i;
  }""")))
same("read-direct", (BC, None, lambda s: body(s, RF, """
    return trimByChar(byteBuf.readSlice(len).toString(StandardCharsets.UTF_8), trimPadChar, padLeft);""")))
bug("read-charseq", "C22", (BC, None, lambda s: body(s, RF, """
    String value = byteBuf.readCharSequence(len, StandardCharsets.UTF_8).toString();
    return trimByChar(value, trimPadChar, padLeft);""")))
same("read-array", (BC, None, lambda s: body(s, RF, """
    byte[] raw = new byte[len];
    byteBuf.readBytes(raw);
    return trimByChar(new String(raw, StandardCharsets.UTF_8), trimPadChar, padLeft);""")))
same("read-array-trim-bytes", (BC, None, lambda s: body(s, RF, """
    byte[] raw = new byte[len];
    byteBuf.readBytes(raw);
    String text = new String(raw, 0, raw.length, StandardCharsets.UTF_8);
    if (text.isEmpty()) {
      return text;
    }
    return trimByChar(text, trimPadChar, padLeft);""")))
bug("fix-early-return-nopad", "C04", (BC, None, lambda s: body(s, W4, """
    if (value == null || value.isEmpty()) {
      return;
    }
    byte[] raw = value.getBytes(StandardCharsets.UTF_8);
    int n = Math.min(raw.length, len);
    if (padLeft) {
      padChar(byteBuf, len - n, padChar);
    }
    byteBuf.writeBytes(raw, 0, n);
    if (!padLeft) {
      padChar(byteBuf, len - n, padChar);
    }""")))
bug("fix-char-length", "C04", (BC, "writedLen = Math.min(bytes.length, len);", "writedLen = Math.min(value.length(), len);"))
bug("fix-cut-left", "C05", (BC, "byteBuf.writeBytes(bytes, 0, writedLen);", "byteBuf.writeBytes(bytes, bytes.length - writedLen, writedLen);"))
bug("fix-trim-one-left", "C05", (BC, "while (end > 0 && s.charAt(end - 1) == ch)", "while (end > 1 && s.charAt(end - 1) == ch)"))
bug("fix-trim-both", "C05", (BC, "    } else {\n      while (end > 0", "    }\n    {\n      while (end > start"))
bug("fix-trim-blank", "C05", (BC, "return s.substring(start, end);", "return s.substring(start, end).trim();"))
bug("fix-read-strip-space", "C05", (BC, "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8).trim();"))
bug("fix-read-null-empty", "C05", (BC, None, lambda s: body(s, RF, """
    String v = trimByChar(byteBuf.readSlice(len).toString(StandardCharsets.UTF_8), trimPadChar, padLeft);
    return v.isEmpty() ? "0" : v;""")))
bug("fix-pad-space-always", "C05", (BC, "padChar(byteBuf, len - writedLen, padChar);\n    }\n  }", "padChar(byteBuf, len - writedLen, ' ');\n    }\n  }"))
bug("fix-long-truncates-one", "C04", (BC, "if (!padLeft && writedLen < len) {", "if (!padLeft && writedLen < len - 1) {"))
bug("read-width-minus-pad", "C04", (BC, "byteBuf.readSlice(len)", "byteBuf.readSlice(padLeft ? len : Math.max(len - 1, 1))"))

# ---------------------------------------------------------------- text and list helpers
ENC1 = """    if (StringUtil.isNullOrEmpty(this.fieldDynamicString)) {
      byteBuf.writeShort(0);
    } else {
      byte[] bytes = this.fieldDynamicString.getBytes(StandardCharsets.UTF_8);
      byteBuf.writeShortLE(bytes.length);
      byteBuf.writeBytes(bytes);
    }
"""
DEC1 = """    int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();
    if (fieldDynamicStringLen > 0) {
      this.fieldDynamicString =
          byteBuf.readSlice(fieldDynamicStringLen).toString(StandardCharsets.UTF_8);
    } else {
      this.fieldDynamicString = null;
    }
"""
LENC = """    if (null == this.fieldDynamicStringList || this.fieldDynamicStringList.size() == 0) {
      byteBuf.writeShort(0);
    } else {
      byteBuf.writeShortLE((short) this.fieldDynamicStringList.size());
      for (int i = 0; i < this.fieldDynamicStringList.size(); i++) {
        if (StringUtil.isNullOrEmpty(this.fieldDynamicStringList.get(i))) {
          byteBuf.writeShort(0);
        } else {
          byte[] bytes = this.fieldDynamicStringList.get(i).getBytes(StandardCharsets.UTF_8);
          byteBuf.writeShortLE(bytes.length);
          byteBuf.writeBytes(bytes);
        }
      }
    }
"""
LDEC = """    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
    if (fieldDynamicStringListSize > 0) {
      this.fieldDynamicStringList = new ArrayList<>();
      for (int i = 0; i < fieldDynamicStringListSize; i++) {
        int fieldDynamicStringListLen = byteBuf.readUnsignedShortLE();
        if (fieldDynamicStringListLen > 0) {
          this.fieldDynamicStringList.add(
              byteBuf.readSlice(fieldDynamicStringListLen).toString(StandardCharsets.UTF_8));
        } else {
          this.fieldDynamicStringList.add("");
        }
      }
    } else {
      this.fieldDynamicStringList = null;
    }
"""
HELP = """
  private static void putText(ByteBuf out, String text) {
    byte[] raw = text == null ? new byte[0] : text.getBytes(StandardCharsets.UTF_8);
    out.writeShortLE(raw.length);
    out.writeBytes(raw);
  }

  private static String getText(ByteBuf in) {
    int n = in.readUnsignedShortLE();
    return n == 0 ? "" : in.readSlice(n).toString(StandardCharsets.UTF_8);
  }
"""
HELPN = HELP.replace('? ""', '? null')
same("text-helper", (SP, ENC1, "    putText(byteBuf, this.fieldDynamicString);\n"), (SP, DEC1, "    this.fieldDynamicString = getText(byteBuf);\n"), (SP, None, lambda s: add(s, HELPN)))
same("text-list-helper", (SP, LENC, """    List<String> list = this.fieldDynamicStringList;
    if (list == null || list.isEmpty()) {
      byteBuf.writeShortLE(0);
    } else {
      byteBuf.writeShortLE(list.size());
      for (String each : list) {
        putText(byteBuf, each);
      }
    }
"""), (SP, LDEC, """    int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();
    this.fieldDynamicStringList = null;
    if (fieldDynamicStringListSize > 0) {
      List<String> list = new ArrayList<>(fieldDynamicStringListSize);
      while (list.size() < fieldDynamicStringListSize) {
        list.add(getText(byteBuf));
      }
      this.fieldDynamicStringList = list;
    }
"""), (SP, None, lambda s: add(s, HELP)))
same("text-list-count-zero-loop", (SP, LENC, """    int n = this.fieldDynamicStringList == null ? 0 : this.fieldDynamicStringList.size();
    byteBuf.writeShortLE(n);
    for (int i = 0; i < n; i++) {
      putText(byteBuf, this.fieldDynamicStringList.get(i));
    }
"""), (SP, None, lambda s: add(s, HELP)))
same("text-codec-default", (BC, None, lambda s: add(s, """
  default void writeText16(ByteBuf byteBuf, String value) {
    if (StringUtil.isNullOrEmpty(value)) {
      byteBuf.writeShort(0);
      return;
    }
    byte[] bytes = value.getBytes(StandardCharsets.UTF_8);
    byteBuf.writeShortLE(bytes.length);
    byteBuf.writeBytes(bytes);
  }

  default String readText16(ByteBuf byteBuf) {
    int n = byteBuf.readUnsignedShortLE();
    if (n <= 0) {
      return null;
    }
    return byteBuf.readSlice(n).toString(StandardCharsets.UTF_8);
  }""")), (SP, ENC1, "    writeText16(byteBuf, fieldDynamicString);\n"), (SP, DEC1, "    fieldDynamicString = readText16(byteBuf);\n"))
same("text-utf8-backpatch", (SP, ENC1, """    int at = byteBuf.writerIndex();
    byteBuf.writeShortLE(0);
    if (this.fieldDynamicString != null) {
      byteBuf.setShortLE(at, byteBuf.writeCharSequence(this.fieldDynamicString, StandardCharsets.UTF_8));
    }
"""))
same("text-ternary", (SP, DEC1, """    int n = byteBuf.readUnsignedShortLE();
    this.fieldDynamicString = n == 0 ? null : byteBuf.readSlice(n).toString(StandardCharsets.UTF_8);
"""))
same("text-null-first", (SP, DEC1, """    this.fieldDynamicString = null;
    final int n = byteBuf.readUnsignedShortLE();
    if (n != 0) {
      byte[] raw = new byte[n];
      byteBuf.readBytes(raw, 0, n);
      this.fieldDynamicString = new String(raw, StandardCharsets.UTF_8);
    }
"""))
same("text-empty-not-null", (SP, DEC1, """    int n = byteBuf.readUnsignedShortLE();
    this.fieldDynamicString = byteBuf.readSlice(n).toString(StandardCharsets.UTF_8);
"""))
same("locals-then-assign", (SP, None, lambda s: s.replace(DEC1, """    String d = null;
    int n = byteBuf.readShortLE() & 0xFFFF;
    if (n > 0) {
      d = byteBuf.readSlice(n).toString(StandardCharsets.UTF_8);
    }
""").replace("    this.fieldFixedString1 = readFixedString(byteBuf, 1, '0', true);", "    String f1 = readFixedString(byteBuf, 1, '0', true);\n    this.fieldDynamicString = d;\n    this.fieldFixedString1 = f1;")))
LNE = """      for (int i = 0; i < this.subPacketList.size(); i++) {
        this.subPacketList.get(i).encode(byteBuf);
      }
"""
LND = """      for (int i = 0; i < subPacketListSize; i++) {
        SubPacket subPacketList_ = new SubPacket();
        subPacketList_.decode(byteBuf);
        this.subPacketList.add(subPacketList_);
      }
"""
same("group-generic-helpers", (BC, None, lambda s: add(imp(s, "java.util.List", "java.util.ArrayList", "java.util.function.Supplier"), """
  static <T extends BinaryCodec> void writeGroup(ByteBuf out, List<T> items) {
    int n = items == null ? 0 : items.size();
    out.writeShortLE(n);
    for (int i = 0; i < n; i++) {
      items.get(i).encode(out);
    }
  }

  static <T extends BinaryCodec> List<T> readGroup(ByteBuf in, Supplier<T> maker) {
    int n = in.readUnsignedShortLE();
    if (n == 0) {
      return null;
    }
    List<T> items = new ArrayList<>(n);
    for (int i = 0; i < n; i++) {
      T t = maker.get();
      t.decode(in);
      items.add(t);
    }
    return items;
  }""")), (NP, None, lambda s: re.sub(r"    int subPacketListSize =.*?\n    }\n(?=    if \(null == this.iner)", "    this.subPacketList = BinaryCodec.readGroup(byteBuf, SubPacket::new);\n", re.sub(r"    if \(null == this.subPacketList .*?\n    }\n(?=    this.inerPacket.enc)", "    BinaryCodec.writeGroup(byteBuf, this.subPacketList);\n", s, flags=re.S), flags=re.S)))
same("group-iterator", (NP, LNE, """      java.util.Iterator<SubPacket> it = this.subPacketList.iterator();
      while (it.hasNext()) {
        it.next().encode(byteBuf);
      }
"""))
same("group-stream", (NP, LNE, "      this.subPacketList.stream().forEach(x -> x.encode(byteBuf));\n"))
same("group-decode-linked", (NP, "      this.subPacketList = new ArrayList<>();\n" + LND, """      List<SubPacket> packets = new java.util.LinkedList<>();
      int left = subPacketListSize;
      do {
        SubPacket one = new SubPacket();
        packets.add(one);
        one.decode(byteBuf);
        left--;
      } while (left > 0);
      this.subPacketList = packets;
"""))
same("group-decode-helper", (NP, LND, """      for (int i = 0; i != subPacketListSize; ++i) {
        this.subPacketList.add(readSub(byteBuf));
      }
"""), (NP, None, lambda s: add(s, """
  private SubPacket readSub(ByteBuf in) {
    SubPacket p = new SubPacket();
    p.decode(in);
    return p;
  }""")))
same("nested-new-always", (NP, """    if (null == this.subPacket) {
      this.subPacket = new SubPacket();
    }
    this.subPacket.decode(byteBuf);
""", """    SubPacket fresh = new SubPacket();
    fresh.decode(byteBuf);
    this.subPacket = fresh;
"""))
same("nested-requirenonnull", (NP, "    this.subPacket.encode(byteBuf);", "    Objects.requireNonNull(this.subPacket).encode(byteBuf);"))
same("numbers-boxed-loop", (NP, "        for (int i = 0; i < this.fieldI16List.size(); i++) {\n          byteBuf.writeShortLE(this.fieldI16List.get(i));", "        for (Short v : this.fieldI16List) {\n          byteBuf.writeShortLE(v.intValue());"))
bug("group-last-lost", "C01,C06", (NP, "for (int i = 0; i < subPacketListSize; i++) {", "for (int i = 0; i < subPacketListSize - 1; i++) {"))
bug("group-encode-from-one", "C06", (NP, "for (int i = 0; i < this.subPacketList.size(); i++) {", "for (int i = this.subPacketList.size() > 1 ? 1 : 0; i < this.subPacketList.size(); i++) {"))
bug("group-same-instance", "C01", (NP, "      for (int i = 0; i < subPacketListSize; i++) {\n        SubPacket subPacketList_ = new SubPacket();", "      SubPacket subPacketList_ = new SubPacket();\n      for (int i = 0; i < subPacketListSize; i++) {"))
bug("group-add-first", "C01", (NP, "this.subPacketList.add(subPacketList_);", "this.subPacketList.add(0, subPacketList_);"))
bug("group-reversed", "C02", (NP, "this.subPacketList.get(i).encode(byteBuf);", "this.subPacketList.get(this.subPacketList.size() - 1 - i).encode(byteBuf);"))
bug("group-append-old", "C15", (NP, "      this.subPacketList = new ArrayList<>();\n", "      if (this.subPacketList == null) {\n        this.subPacketList = new ArrayList<>();\n      }\n"))
bug("text-keep-old", "C15", (SP, "    } else {\n      this.fieldDynamicString = null;\n    }\n", "    } else if (this.fieldDynamicString == null) {\n      this.fieldDynamicString = \"\";\n    }\n"))
bug("text-char-count", "C06", (SP, "byteBuf.writeShortLE(bytes.length);", "byteBuf.writeShortLE(this.fieldDynamicString.length());"))
bug("text-signed-count", "C06", (SP, "int fieldDynamicStringLen = byteBuf.readUnsignedShortLE();", "int fieldDynamicStringLen = byteBuf.readShortLE();"))
bug("text-count-byte-cast", "C06", (SP, "byteBuf.writeShortLE(bytes.length);", "byteBuf.writeShortLE((byte) bytes.length);"))
bug("text-skip-null-element", "C06", (SP, "        if (StringUtil.isNullOrEmpty(this.fieldDynamicStringList.get(i))) {\n          byteBuf.writeShort(0);\n        } else {", "        if (this.fieldDynamicStringList.get(i) != null) {"))
bug("text-element-null-for-empty", "C01", (SP, "        } else {\n          this.fieldDynamicStringList.add(\"\");\n        }\n", "        }\n"))
bug("list-count-le-be", "C03", (SP, "byteBuf.writeShortLE((short) this.fieldDynamicStringList.size());", "byteBuf.writeShort((short) this.fieldDynamicStringList.size());"), (SP, "int fieldDynamicStringListSize = byteBuf.readUnsignedShortLE();", "int fieldDynamicStringListSize = byteBuf.readUnsignedShort();"))
bug("swap-two-fields", "C02", (SP, None, lambda s: s.replace("    writeFixedString(byteBuf, this.fieldFixedString10, 10, '0', true);\n    writeFixedString(byteBuf, this.fieldFixedString10Pad, 10, ' ', true);", "    writeFixedString(byteBuf, this.fieldFixedString10Pad, 10, ' ', true);\n    writeFixedString(byteBuf, this.fieldFixedString10, 10, '0', true);").replace("    this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);\n    this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);", "    this.fieldFixedString10Pad = readFixedString(byteBuf, 10, ' ', true);\n    this.fieldFixedString10 = readFixedString(byteBuf, 10, '0', true);")))
bug("pad-other-side-both", "C02,C05", (SP, "this.fieldFixedString10ListPad.get(i), 10, '0', false", "this.fieldFixedString10ListPad.get(i), 10, '0', true"), (SP, "this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', false))", "this.fieldFixedString10ListPad.add(readFixedString(byteBuf, 10, '0', true))"))

# ---------------------------------------------------------------- frames
SENC = """    int bodyStart = byteBuf.writerIndex();
    if (this.body != null) {
      this.body.encode(byteBuf);
    }
    int bodyEnd = byteBuf.writerIndex();
    this.msgBodyLen = (int) (bodyEnd - bodyStart);
    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);
"""
CSUM = """    ChecksumService<ByteBuf, Integer> checksumService =
        ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
    if (checksumService != null) {
      this.checksum =
          (int)
              checksumService.calc(
                  byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
    }
    byteBuf.writeInt(this.checksum);
"""
same("frame-body-helper", (SSEB, SENC, "    this.msgBodyLen = encodeBody(byteBuf);\n    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);\n"), (SSEB, None, lambda s: add(s, """
  private int encodeBody(ByteBuf out) {
    if (body == null) {
      return 0;
    }
    int before = out.writerIndex();
    body.encode(out);
    return out.writerIndex() - before;
  }""")))
same("frame-length-from-position", (SSEB, SENC, """    if (this.body != null) {
      this.body.encode(byteBuf);
    }
    this.msgBodyLen = byteBuf.writerIndex() - msgBodyLenPos - Integer.BYTES;
    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);
"""))
same("frame-temp-buffer", (SSEB, None, lambda s: imp(s.replace("    int msgBodyLenPos = byteBuf.writerIndex();\n    byteBuf.writeInt(0);\n\n" + SENC, """    ByteBuf scratch = Unpooled.buffer();
    try {
      if (this.body != null) {
        this.body.encode(scratch);
      }
      this.msgBodyLen = scratch.readableBytes();
      byteBuf.writeInt(this.msgBodyLen);
      byteBuf.writeBytes(scratch);
    } finally {
      scratch.release();
    }
"""), "io.netty.buffer.Unpooled")))
same("frame-header-helper", (SSEB, "    byteBuf.writeInt(this.msgType);\n    byteBuf.writeLong(this.msgSeqNum);\n    int msgBodyLenPos = byteBuf.writerIndex();\n    byteBuf.writeInt(0);\n", "    int msgBodyLenPos = writeHeader(byteBuf);\n"), (SSEB, None, lambda s: add(s, """
  private int writeHeader(ByteBuf out) {
    out.writeInt(this.msgType);
    out.writeLong(this.msgSeqNum);
    int at = out.writerIndex();
    out.writeZero(4);
    return at;
  }""")))
same("frame-trailer-helper", (SSEB, CSUM, "    writeChecksum(byteBuf, frameStart);\n"), (SSEB, None, lambda s: add(s, """
  private void writeChecksum(ByteBuf byteBuf, int start) {
    ChecksumService<ByteBuf, Integer> service =
        ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN");
    if (service != null) {
      ByteBuf frame = byteBuf.slice(start, byteBuf.writerIndex() - start);
      this.checksum = service.calc(frame);
    }
    byteBuf.writeInt(this.checksum);
  }""")))
same("frame-duplicate-view", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.duplicate().readerIndex(frameStart)"))
same("frame-set-after-checksum-order", (SSEB, "    this.msgBodyLen = (int) (bodyEnd - bodyStart);\n    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);\n", "    byteBuf.setInt(msgBodyLenPos, bodyEnd - bodyStart);\n    this.msgBodyLen = bodyEnd - bodyStart;\n"))
same("frame-writer-seek", (SSEB, "    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);\n", "    byteBuf.writerIndex(msgBodyLenPos).writeInt(this.msgBodyLen).writerIndex(bodyEnd);\n"))
same("frame-mark-reset", (SSEB, "    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);\n", "    byteBuf.markWriterIndex();\n    byteBuf.writerIndex(msgBodyLenPos);\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.resetWriterIndex();\n"))
same("frame-body-local", (SSEB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    BinaryCodec content = BodyMessageFactory.getInstance().create(this.msgType);\n    content.decode(byteBuf);\n    this.body = content;"))
same("frame-decode-helper", (SSEB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    this.body = decodeBody(this.msgType, byteBuf);"), (SSEB, None, lambda s: add(s, """
  private static BinaryCodec decodeBody(int type, ByteBuf in) {
    BinaryCodec made = BodyMessageFactory.INSTANCE.create(Integer.valueOf(type));
    made.decode(in);
    return made;
  }""")))
same("frame-decode-via-setters", (SSEB, "    this.msgType = byteBuf.readInt();\n    this.msgSeqNum = byteBuf.readLong();\n    this.msgBodyLen = byteBuf.readInt();", "    setMsgType(byteBuf.readInt());\n    setMsgSeqNum(byteBuf.readLong());\n    setMsgBodyLen(byteBuf.readInt());"))
same("frame-optional-service", (SSEB, CSUM, """    java.util.Optional<ChecksumService<ByteBuf, Integer>> service =
        java.util.Optional.ofNullable(ChecksumServiceFactory.getInstance().getChecksumService("SSE_BIN"));
    if (service.isPresent()) {
      this.checksum = service.get().calc(byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart));
    }
    byteBuf.writeInt(this.checksum);
"""))
same("frame-name-constant", (SSEB, 'getChecksumService("SSE_BIN")', "getChecksumService(ALGORITHM)"), (SSEB, "  private int msgType;\n", '  private static final String ALGORITHM = "SSE_BIN";\n  private int msgType;\n'))
same("frame-slices-ranges", (RP, "    int payloadEnd = byteBuf.writerIndex();\n    this.payloadLen = (int) (payloadEnd - payloadStart);", "    this.payloadLen = byteBuf.writerIndex() - payloadStart;"))
bug("frame-length-includes-checksum", "C07", (RP, "this.payloadLen = (int) (payloadEnd - payloadStart);", "this.payloadLen = (int) (payloadEnd - payloadStart) + 4;"))
bug("frame-length-absolute", "C07", (RCB, "this.msgBodyLen = (int) (bodyEnd - bodyStart);", "this.msgBodyLen = (int) (bodyEnd - 12);"))
bug("frame-length-readable", "C07", (RCB, "this.msgBodyLen = (int) (bodyEnd - bodyStart);", "this.msgBodyLen = byteBuf.readableBytes() - 12;"))
bug("frame-length-not-kept", "C07", (RCB, "    this.msgBodyLen = (int) (bodyEnd - bodyStart);\n    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "    byteBuf.setInt(msgBodyLenPos, bodyEnd - bodyStart);"))
bug("frame-length-short", "C07", (SZB, "byteBuf.setInt(", "byteBuf.setShort(2 + "))
bug("frame-length-if-zero", "C07", (RP, "    this.payloadLen = (int) (payloadEnd - payloadStart);", "    if (this.payloadLen == 0) {\n      this.payloadLen = (int) (payloadEnd - payloadStart);\n    }"))
bug("checksum-whole-buffer", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.slice(0, byteBuf.writerIndex())"))
bug("checksum-skips-header", "C08", (SSEB, "byteBuf.slice(frameStart, byteBuf.writerIndex() - frameStart)", "byteBuf.slice(bodyStart, byteBuf.writerIndex() - bodyStart)"))
bug("checksum-kept-if-set", "C08", (SSEB, "if (checksumService != null) {", "if (checksumService != null && this.checksum == 0) {"))
bug("checksum-other-algorithm", "C08", (SZB, '"SZSE_BIN"', '"SSE_BIN"'))
bug("checksum-masked", "C08", (RP, "    byteBuf.writeIntLE(this.checksum);", "    byteBuf.writeIntLE(this.checksum & 0x7FFFFFFF);"))

# ---------------------------------------------------------------- factories
CRE = "public BinaryCodec create("
same("create-inverted", (SSEB, None, lambda s: body(s, CRE, """
      Supplier<BinaryCodec> supplier = bodyMap.get(msgType);
      if (supplier != null) {
        return supplier.get();
      }
      throw new IllegalArgumentException("Unsupported MsgType:" + msgType);""")))
same("create-containskey", (SSEB, None, lambda s: body(s, CRE, """
      if (!bodyMap.containsKey(msgType)) {
        throw new IllegalArgumentException("Unsupported MsgType:" + msgType);
      }
      return bodyMap.get(msgType).get();""")))
same("create-optional", (SSEB, None, lambda s: body(s, CRE, """
      return java.util.Optional.ofNullable(bodyMap.get(msgType))
          .orElseThrow(() -> new IllegalArgumentException("Unsupported MsgType:" + msgType))
          .get();""")))
same("create-optional-map", (NO, None, lambda s: body(s, CRE, """
      return java.util.Optional.ofNullable(applExtendMap.get(applId))
          .map(Supplier::get)
          .orElseThrow(() -> new IllegalArgumentException("Unsupported ApplID:" + applId));""")))
same("create-helper", (NO, None, lambda s: body(s, CRE, """
      return lookup(applId).get();
    }

    private Supplier<BinaryCodec> lookup(String applId) {
      Supplier<BinaryCodec> supplier = applExtendMap.get(applId);
      if (null == supplier) {
        throw unsupported(applId);
      }
      return supplier;
    }

    private static IllegalArgumentException unsupported(String applId) {
      return new IllegalArgumentException("Unsupported ApplID:" + applId);""")))
same("create-subclass-exception", (NO, 'throw new IllegalArgumentException("Unsupported ApplID:" + applId)', 'String text = String.format("Unsupported ApplID:%s", applId);\n        throw new IllegalArgumentException(text)'))
same("remove-two-steps", (NO, None, lambda s: body(s, "public boolean remove(", """
      Supplier<BinaryCodec> old = applExtendMap.remove(applId);
      return old != null;""")))
same("remove-containskey", (NO, None, lambda s: body(s, "public boolean remove(", """
      if (!applExtendMap.containsKey(applId)) {
        return false;
      }
      applExtendMap.remove(applId);
      return true;""")))
same("map-linked", (NO, "applExtendMap = new HashMap<>()", "applExtendMap = new java.util.LinkedHashMap<>(64)"))
same("map-tree", (RP, "payloadMap = new HashMap<>()", "payloadMap = new java.util.TreeMap<>()"))
same("lambda-suppliers", (NO, None, lambda s: re.sub(r"Extend(\d+)::new", r"() -> new Extend\1()", s)))
same("loop-registration", (NO, None, lambda s: s.replace('      getInstance().register("150", Extend101501::new);\n      getInstance().register("151", Extend101501::new);\n      getInstance().register("152", Extend101501::new);\n', '      for (String code : new String[] {"150", "151", "152"}) {\n        getInstance().register(code, Extend101501::new);\n      }\n')))
same("helper-registration", (NO, None, lambda s: s.replace('    static {\n', '    private static void reg(String code, Supplier<BinaryCodec> maker) {\n      INSTANCE.register(code, maker);\n    }\n\n    static {\n').replace("getInstance().register(\"", "reg(\"")))
same("ctor-registration", (RP, None, lambda s: s.replace("    static {\n", "    PayloadMessageFactory() {\n").replace("getInstance().register((short)", "register((short)")))
same("init-block-put", (RP, None, lambda s: s.replace("    static {\n", "    {\n").replace("getInstance().register((short)", "payloadMap.put((short)")))
same("reg-message-constants", (SSEB, None, lambda s: s.replace("MessageType.HEARTBEAT.getValue()", "33").replace("MessageType.LOGON.getValue()", "TYPE_LOGON").replace("    static {\n", "    private static final int TYPE_LOGON = 40;\n\n    static {\n", 1)))
same("reverse-iterator", (SSEB, None, lambda s: body(s, "public boolean remove(Integer", """
      java.util.Iterator<Integer> it = reverseMap.values().iterator();
      while (it.hasNext()) {
        if (it.next().equals(msgType)) {
          it.remove();
        }
      }
      return null != bodyMap.remove(msgType);""")))
same("reverse-entryset", (SSEB, None, lambda s: body(s, "public boolean remove(Integer", """
      reverseMap.entrySet().removeIf(e -> e.getValue().equals(msgType));
      return bodyMap.remove(msgType) != null;""")))
same("reverse-helper", (SSEB, None, lambda s: body(body(s, "public boolean remove(Integer", """
      forget(msgType);
      return null != bodyMap.remove(msgType);"""), "public void register(Class<?>", """
      forget(msgType);
      reverseMap.put(clazz, msgType);
      bodyMap.put(msgType, supplier);
    }

    private void forget(Integer msgType) {
      reverseMap.values().removeIf(msgType::equals);""")))
same("reverse-removeall", (SSEB, None, lambda s: body(s, "public boolean remove(Integer", """
      reverseMap.values().removeAll(java.util.Collections.singleton(msgType));
      return null != bodyMap.remove(msgType);""")))
same("fromvalue-index", (SSEB, None, lambda s: body(s, "public static MessageType fromValue(", """
        MessageType[] all = values();
        for (int i = 0; i < all.length; i++) {
          if (all[i].getValue() == value) {
            return all[i];
          }
        }
        throw new IllegalArgumentException("Unknown MessageType value: " + value);""")))
same("fromvalue-stream", (SSEB, None, lambda s: body(s, "public static MessageType fromValue(", """
        return java.util.Arrays.stream(values())
            .filter(t -> t.value == value)
            .findFirst()
            .orElseThrow(() -> new IllegalArgumentException("Unknown MessageType value: " + value));""")))
same("fromvalue-switch", (SSEB, None, lambda s: body(s, "public static MessageType fromValue(", """
        switch (value) {
          case 33: return HEARTBEAT;
          case 40: return LOGON;
          case 41: return LOGOUT;
          case 58: return NEW_ORDER_SINGLE;
          case 61: return ORDER_CANCEL;
          case 32: return CONFIRM;
          case 59: return CANCEL_REJECT;
          case 103: return REPORT;
          case 204: return ORDER_REJECT;
          case 209: return PLATFORM_STATE;
          case 208: return EXEC_RPT_INFO;
          case 206: return EXEC_RPT_SYNC;
          case 207: return EXEC_RPT_SYNC_RSP;
          case 210: return EXEC_RPT_END_OF_STREAM;
          default: throw new IllegalArgumentException("Unknown MessageType value: " + value);
        }""")))
same("fromvalue-map", (SSEB, None, lambda s: body(s, "public static MessageType fromValue(", """
        MessageType found = BY_VALUE.get(value);
        if (found == null) {
          throw new IllegalArgumentException("Unknown MessageType value: " + value);
        }
        return found;""").replace("      private final int value;\n\n      MessageType(", """      private static final Map<Integer, MessageType> BY_VALUE = new HashMap<>();

      static {
        for (MessageType t : values()) {
          BY_VALUE.put(t.value, t);
        }
      }

      private final int value;

      MessageType(""")))
same("registry-putifabsent", (CSF, None, lambda s: body(s, "public boolean registry(", "    return CACHE.putIfAbsent(checksumService.algorithm(), checksumService) == null;")))
same("registry-inverted", (CSF, None, lambda s: body(s, "public boolean registry(", """
    String name = checksumService.algorithm();
    boolean free = !CACHE.containsKey(name);
    if (free) {
      CACHE.put(name, checksumService);
    }
    return free;""")))
same("registry-get-null", (CSF, None, lambda s: body(s, "public boolean registry(", """
    String name = checksumService.algorithm();
    if (CACHE.get(name) != null) {
      return false;
    }
    CACHE.put(name, checksumService);
    return true;""")))
same("registry-concurrent-map", (CSF, "new HashMap<>()", "new java.util.concurrent.ConcurrentHashMap<>()"))
same("registry-loop", (CSF, None, lambda s: body(s, "private ChecksumServiceFactory()", """
    ChecksumService<?, ?>[] all = {
      new Crc16ChecksumService(), new Crc32ChecksumService(), new SseBinChecksumService(), new SzseBinChecksumService()
    };
    for (ChecksumService<?, ?> each : all) {
      registry(each);
    }""")))
same("registry-list-foreach", (CSF, None, lambda s: body(s, "private ChecksumServiceFactory()", """
    java.util.Arrays.<ChecksumService<?, ?>>asList(
            new Crc16ChecksumService(), new Crc32ChecksumService(), new SseBinChecksumService(), new SzseBinChecksumService())
        .forEach(this::registry);""")))
same("registry-synchronized", (CSF, "public boolean registry(", "public synchronized boolean registry("))
bug("create-shared-instance", "C12", (RP, "register((short) 3, NestedPacket::new)", "register((short) 3, new Supplier<BinaryCodec>() {\n        private final NestedPacket p = new NestedPacket();\n\n        public BinaryCodec get() {\n          return p;\n        }\n      })"))
bug("create-default-empty", "C13", (RP, None, lambda s: body(s, CRE, "      return payloadMap.getOrDefault(msgType, EmptyPacket::new).get();")))
bug("create-npe", "C13", (NO, None, lambda s: body(s, CRE, "      return applExtendMap.get(applId).get();")))
bug("create-null", "C13", (NO, 'throw new IllegalArgumentException("Unsupported ApplID:" + applId)', "return null"), (NO, "    this.applExtend.decode(byteBuf);", "    if (this.applExtend != null) {\n      this.applExtend.decode(byteBuf);\n    }"))
bug("create-prefix-fallback", "C13", (NO, "      Supplier<BinaryCodec> supplier = applExtendMap.get(applId);\n", "      Supplier<BinaryCodec> supplier = applExtendMap.get(applId);\n      if (supplier == null && applId.length() == 3) {\n        supplier = applExtendMap.get(applId.substring(0, 2) + \"0\");\n      }\n"))
bug("frame-swallow-unknown", "C13", (SSEB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    try {\n      this.body = BodyMessageFactory.getInstance().create(this.msgType);\n      this.body.decode(byteBuf);\n    } catch (IllegalArgumentException e) {\n      byteBuf.skipBytes(this.msgBodyLen);\n    }"))
bug("register-keeps-first", "C12", (NO, "applExtendMap.put(applId, supplier);", "applExtendMap.putIfAbsent(applId, supplier);"))
bug("remove-noop", "C12", (NO, "return null != applExtendMap.remove(applId);", "return null != applExtendMap.get(applId);"))
bug("remove-all-of-same", "C12", (NO, "return null != applExtendMap.remove(applId);", "Supplier<BinaryCodec> s = applExtendMap.remove(applId);\n      applExtendMap.values().remove(s);\n      return s != null;"))
bug("wrong-extend", "C12", (NO, '"052", Extend100501::new', '"052", Extend100601::new'))
bug("reverse-kept", "C14", (SSEB, None, lambda s: body(s, "public boolean remove(Integer", "      return null != bodyMap.remove(msgType);")))
bug("reverse-remove-eq", "C14", (SSEB, None, lambda s: s.replace("value -> value.equals(msgType)", "value -> value == msgType")))
bug("fromvalue-default", "C14", (SSEB, 'throw new IllegalArgumentException("Unknown MessageType value: " + value);', "return HEARTBEAT;"))
bug("fromvalue-byte", "C14", (SSEB, "if (type.value == value)", "if ((byte) type.value == (byte) value)"))
bug("registry-replaces", "C11", (CSF, "      return false;\n", "      CACHE.put(checksumService.algorithm(), checksumService);\n      return false;\n"))
bug("registry-ignorecase", "C11", (CSF, "CACHE.get(name)", "CACHE.get(name.toUpperCase(java.util.Locale.ROOT))"))
bug("registry-remove-prefix", "C11", (CSF, "CACHE.remove(name);", "CACHE.keySet().removeIf(k -> k.startsWith(name));"))
bug("registry-identity", "C11", (CSF, "new HashMap<>()", "new java.util.IdentityHashMap<>()"))

# ---------------------------------------------------------------- object methods
EQS = "public boolean equals(Object obj)"
HS = "public int hashCode()"
TS = "public String toString()"
same("eq-operators", (SSEB, None, lambda s: body(s, EQS, """
    if (this == obj) {
      return true;
    }
    if (obj == null) {
      return false;
    }
    if (getClass() != obj.getClass()) {
      return false;
    }
    SseBinary that = (SseBinary) obj;
    return this.msgType == that.msgType
        && this.msgSeqNum == that.msgSeqNum
        && this.msgBodyLen == that.msgBodyLen
        && this.checksum == that.checksum
        && Objects.equals(this.body, that.body);""")))
same("eq-chain", (SSEB, None, lambda s: body(s, EQS, """
    if (obj == null || obj.getClass() != this.getClass()) {
      return false;
    }
    SseBinary that = (SseBinary) obj;
    if (msgType != that.getMsgType()) return false;
    if (Long.compare(msgSeqNum, that.msgSeqNum) != 0) return false;
    if (msgBodyLen != that.msgBodyLen) return false;
    if (body == null ? that.body != null : !body.equals(that.body)) return false;
    return checksum == that.checksum;""")))
same("eq-arrays", (SSEB, None, lambda s: add(body(s, EQS, """
    if (null == obj || getClass() != obj.getClass()) {
      return false;
    }
    return java.util.Arrays.equals(key(), ((SseBinary) obj).key());"""), """
  private Object[] key() {
    return new Object[] {msgType, msgSeqNum, msgBodyLen, body, checksum};
  }""")))
same("eq-aslist", (SSEB, None, lambda s: add(body(s, EQS, """
    return obj == this
        || obj != null && getClass() == obj.getClass() && key().equals(((SseBinary) obj).key());"""), """
  private java.util.List<Object> key() {
    return java.util.Arrays.<Object>asList(msgType, msgSeqNum, msgBodyLen, body, checksum);
  }""")))
same("eq-helper", (SSEB, None, lambda s: add(body(s, EQS, """
    if (this == obj) {
      return true;
    }
    if (null == obj || getClass() != obj.getClass()) {
      return false;
    }
    return sameFields((SseBinary) obj);"""), """
  private boolean sameFields(SseBinary o) {
    return sameHeader(o) && Objects.equals(body, o.body) && checksum == o.checksum;
  }

  private boolean sameHeader(SseBinary o) {
    return msgType == o.msgType && msgSeqNum == o.msgSeqNum && msgBodyLen == o.msgBodyLen;
  }""")))
same("eq-local-bool", (SSEB, None, lambda s: body(s, EQS, """
    if (this == obj) {
      return true;
    }
    if (null == obj || !getClass().equals(obj.getClass())) {
      return false;
    }
    SseBinary o = (SseBinary) obj;
    boolean result = msgType == o.msgType;
    result = result && msgSeqNum == o.msgSeqNum;
    result &= msgBodyLen == o.msgBodyLen;
    if (result) {
      result = Objects.equals(body, o.body);
    }
    return result && Integer.valueOf(checksum).equals(o.checksum);""")))
same("hash-31", (SSEB, None, lambda s: body(s, HS, """
    int result = 1;
    result = 31 * result + Integer.hashCode(msgType);
    result = 31 * result + Long.hashCode(msgSeqNum);
    result = 31 * result + msgBodyLen;
    result = 31 * result + (body == null ? 0 : body.hashCode());
    result = 31 * result + checksum;
    return result;""")))
same("hash-shift", (SSEB, None, lambda s: body(s, HS, """
    final int prime = 31;
    int result = msgType;
    result = prime * result + (int) (msgSeqNum ^ (msgSeqNum >>> 32));
    result = prime * result + Objects.hashCode(body);
    return result ^ checksum;""")))
same("hash-arrays", (SSEB, None, lambda s: body(s, HS, """
    return java.util.Arrays.hashCode(new Object[] {msgType, msgSeqNum, msgBodyLen, body, checksum});""")))
same("hash-loop", (SSEB, None, lambda s: body(s, HS, """
    int h = 7;
    for (Object o : new Object[] {msgType, msgSeqNum, msgBodyLen, body, checksum}) {
      h = 31 * h + Objects.hashCode(o);
    }
    return h;""")))
same("hash-constant", (SSEB, None, lambda s: body(s, HS, "    return 17;")))
same("str-builder", (SSEB, None, lambda s: body(s, TS, """
    StringBuilder sb = new StringBuilder("SseBinary [");
    sb.append("msgType=").append(msgType);
    sb.append(", msgSeqNum=").append(msgSeqNum);
    sb.append(", msgBodyLen=").append(getMsgBodyLen());
    sb.append(", body=").append(body);
    sb.append(", checksum=").append(checksum).append(']');
    return sb.toString();""")))
same("str-format", (SSEB, None, lambda s: body(s, TS, """
    return String.format(
        "SseBinary [msgType=%s, msgSeqNum=%s, msgBodyLen=%s, body=%s, checksum=%s]",
        msgType, msgSeqNum, msgBodyLen, body, checksum);""")))
same("str-joiner", (SSEB, None, lambda s: body(s, TS, """
    return new java.util.StringJoiner(", ", "SseBinary [", "]")
        .add("msgType=" + msgType)
        .add("msgSeqNum=" + msgSeqNum)
        .add("msgBodyLen=" + msgBodyLen)
        .add("body=" + body)
        .add("checksum=" + checksum)
        .toString();""")))
same("str-join", (SSEB, None, lambda s: body(s, TS, """
    return "SseBinary ["
        + String.join(", ", "msgType=" + msgType, "msgSeqNum=" + msgSeqNum, "msgBodyLen=" + msgBodyLen, "body=" + body, "checksum=" + checksum)
        + "]";""")))
same("str-helper", (SSEB, None, lambda s: add(body(s, TS, """
    return getClass().getSimpleName()
        + " ["
        + field("msgType", msgType)
        + ", "
        + field("msgSeqNum", msgSeqNum)
        + ", "
        + field("msgBodyLen", msgBodyLen)
        + ", "
        + field("body", body)
        + ", "
        + field("checksum", checksum)
        + "]";"""), """
  private static String field(String name, Object value) {
    return name + "=" + value;
  }""")))
same("str-valueof", (SSEB, '        + this.body\n', '        + String.valueOf(this.body)\n'))
same("str-concat-locals", (SSEB, None, lambda s: body(s, TS, """
    String head = "SseBinary [msgType=" + msgType + ", msgSeqNum=" + msgSeqNum;
    String tail = ", body=" + body + ", checksum=" + checksum + "]";
    return head.concat(", msgBodyLen=" + msgBodyLen).concat(tail);""")))
same("setter-final-param", (SSEB, "  public void setMsgType(int msgType) {\n    this.msgType = msgType;", "  public void setMsgType(final int value) {\n    msgType = value;"))
same("getter-local", (SSEB, "    return this.body;", "    final BinaryCodec current = this.body;\n    return current;"))
bug("eq-skips-last", "C18", (SSEB, "\n        && Objects.equals(checksum, orther_.checksum)", ""))
bug("eq-self-compare", "C18", (SSEB, "Objects.equals(msgSeqNum, orther_.msgSeqNum)", "Objects.equals(msgSeqNum, msgSeqNum)"))
bug("eq-int-cast", "C18", (SSEB, "Objects.equals(msgSeqNum, orther_.msgSeqNum)", "(int) msgSeqNum == (int) orther_.msgSeqNum"))
bug("eq-identity-body", "C18", (SSEB, "Objects.equals(body, orther_.body)", "body == orther_.body"))
bug("eq-npe", "C18", (SSEB, "Objects.equals(body, orther_.body)", "body.equals(orther_.body)"))
bug("eq-boxed-identity", "C18", (NP, "Objects.equals(fieldI16List, orther_.fieldI16List)", "(fieldI16List == orther_.fieldI16List || fieldI16List != null && orther_.fieldI16List != null && fieldI16List.containsAll(orther_.fieldI16List))"))
bug("eq-hash", "C18", (SSEB, "Objects.equals(body, orther_.body)", "Objects.hashCode(body) == Objects.hashCode(orther_.body)"))
bug("eq-ignorecase", "C18", (NO, "Objects.equals(clOrdId, orther_.clOrdId)", "(clOrdId == null ? orther_.clOrdId == null : clOrdId.equalsIgnoreCase(orther_.clOrdId))"))
bug("eq-null-empty", "C18", (NO, "Objects.equals(clOrdId, orther_.clOrdId)", 'Objects.equals(clOrdId == null ? "" : clOrdId, orther_.clOrdId == null ? "" : orther_.clOrdId)'))
bug("hash-identity-body", "C19", (SSEB, "msgBodyLen, body, checksum);", "msgBodyLen, System.identityHashCode(body), checksum);"))
bug("hash-class-identity", "C19", (SSEB, "return Objects.hash(msgType", "return super.hashCode() + Objects.hash(msgType"))
bug("hash-npe", "C19", (SSEB, "return Objects.hash(msgType", "return body.hashCode() + Objects.hash(msgType"))
bug("hash-array-identity", "C19", (SSEB, "return Objects.hash(msgType, msgSeqNum, msgBodyLen, body, checksum);", "return new Object[] {msgType, msgSeqNum, msgBodyLen, body, checksum}.hashCode();"))
bug("str-wrong-value", "C20", (SSEB, "        + this.msgBodyLen\n", "        + this.msgType\n"))
bug("str-npe", "C20", (SSEB, "        + this.body\n", "        + this.body.toString()\n"))
bug("str-missing", "C20", (SSEB, '        + ", checksum="\n        + this.checksum\n', ""))
bug("str-masked", "C20", (SSEB, "        + this.msgSeqNum\n", "        + (int) this.msgSeqNum\n"))
bug("str-format-order", "C20", (SSEB, None, lambda s: body(s, TS, """
    return String.format(
        "SseBinary [msgType=%s, msgSeqNum=%s, msgBodyLen=%s, body=%s, checksum=%s]",
        msgType, msgBodyLen, msgSeqNum, body, checksum);""")))
bug("set-clamps", "C21", (SSEB, "    this.msgSeqNum = msgSeqNum;", "    this.msgSeqNum = Math.max(msgSeqNum, 0);"))
bug("set-also-other", "C21", (SSEB, "    this.body = body;\n", "    this.body = body;\n    this.msgBodyLen = 0;\n"))
bug("set-trim", "C21", (NO, "    this.clOrdId = clOrdId;", "    this.clOrdId = clOrdId == null ? null : clOrdId.trim();"))
bug("set-ignores-null", "C21", (SSEB, "    this.body = body;\n", "    if (body != null) {\n      this.body = body;\n    }\n"))
bug("set-copies-list", "C21", (NP, "    this.subPacketList = subPacketList;", "    this.subPacketList = subPacketList == null ? null : subPacketList.subList(0, Math.min(subPacketList.size(), 100));"))
bug("get-lazily-creates", "C21", (NP, "    return this.subPacketList;", "    if (this.subPacketList == null) {\n      this.subPacketList = new ArrayList<>();\n    }\n    return this.subPacketList;"))

"""Bugs (bad = the checks that must alarm) and behaviour-preserving edits (bad = nothing) for the effect checks."""
CRC16 = "codec/Crc16ChecksumService.java"
BC = "codec/BinaryCodec.java"
SSEB = "sse/bin/messages/SseBinary.java"
CR = "bjse/trade/messages/CancelReject.java"
PI = "bjse/trade/messages/PlatformInfo.java"
CASES = []


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


LOOP = "int b = buf.getUnsignedByte(readerIndex + i);"
# C10
bug("crc16-consumes", "C10", (CRC16, LOOP, "int b = buf.readUnsignedByte();"))
same("crc16-mark-reset", (CRC16, LOOP, "int b = buf.readUnsignedByte();"), (CRC16, "    for (int i = 0; i < readable", "    buf.markReaderIndex();\n    for (int i = 0; i < readable"),
     (CRC16, "    return crc & 0xFFFF;", "    buf.resetReaderIndex();\n    return crc & 0xFFFF;"))
same("crc16-restore-index", (CRC16, LOOP, "int b = buf.readUnsignedByte();"),
     (CRC16, "    return crc & 0xFFFF;", "    buf.readerIndex(readerIndex);\n    return crc & 0xFFFF;"))
same("crc16-duplicate", (CRC16, LOOP, "int b = view.readUnsignedByte();"), (CRC16, "    int crc = 0xFFFF;\n", "    int crc = 0xFFFF;\n    ByteBuf view = buf.duplicate();\n"))
same("crc16-slice-read", (CRC16, LOOP, "int b = view.readByte() & 0xFF;"), (CRC16, "    int crc = 0xFFFF;\n", "    int crc = 0xFFFF;\n    ByteBuf view = buf.slice();\n"))
bug("crc16-field-state", "C10", (CRC16, "    int crc = 0xFFFF;\n", "    crc = this.last;\n".replace("crc = ", "int crc = ")), (CRC16, "    return crc & 0xFFFF;", "    this.last = crc & 0xFFFF;\n    return crc & 0xFFFF;"),
    (CRC16, "  @Override\n  public Integer calc", "  private int last = 0xFFFF;\n\n  @Override\n  public Integer calc"))
bug("crc16-static-table-touched", "C10", (CRC16, "    return crc & 0xFFFF;", "    CRC_TABLE[0] = crc & 0xFFFF;\n    return crc & 0xFFFF;"))
bug("crc16-writes-buffer", "C10", (CRC16, "    return crc & 0xFFFF;", "    if (readableBytes > 2) {\n      buf.setByte(readerIndex, crc);\n    }\n    return crc & 0xFFFF;"))
bug("crc16-absolute-zero", "C09", (CRC16, LOOP, "int b = buf.getUnsignedByte(i);"))
same("crc16-helper", (CRC16, "      crc = (crc >>> 8) ^ CRC_TABLE[(crc ^ b) & 0xFF];", "      crc = update(crc, b);"),
     (CRC16, "  @Override\n  public String algorithm", "  private static int update(int crc, int b) {\n    int k = (crc ^ b) & 0xFF;\n    return (crc >>> 8) ^ CRC_TABLE[k];\n  }\n\n  @Override\n  public String algorithm"))
same("crc16-end-loop", (CRC16, "    for (int i = 0; i < readableBytes; i++) {\n      int b = buf.getUnsignedByte(readerIndex + i);", "    int stop = readerIndex + readableBytes;\n    for (int at = readerIndex; at < stop; at++) {\n      int b = buf.getByte(at) & 0xFF;"))
same("crc16-while", (CRC16, "    for (int i = 0; i < readableBytes; i++) {\n      int b = buf.getUnsignedByte(readerIndex + i);", "    int i = 0;\n    while (i != readableBytes) {\n      int b = buf.getUnsignedByte(readerIndex + i++);"))
same("crc16-writerindex", (CRC16, "int readableBytes = buf.readableBytes();", "int readableBytes = buf.writerIndex() - readerIndex;"))
same("crc16-lambda", (CRC16, "    for (int i = 0; i < readableBytes; i++) {\n      int b = buf.getUnsignedByte(readerIndex + i);\n      crc = (crc >>> 8) ^ CRC_TABLE[(crc ^ b) & 0xFF];\n    }\n\n    return crc & 0xFFFF;",
     "    final int[] acc = {crc};\n    buf.forEachByte(readerIndex, readableBytes, v -> {\n      acc[0] = (acc[0] >>> 8) ^ CRC_TABLE[(acc[0] ^ v) & 0xFF];\n      return true;\n    });\n    return acc[0] & 0xFFFF;"))

# C16
bug("encode-null-text-empty", "C16", (CR, "    byteBuf.writeIntLE(this.partitionNo);\n", "    if (this.rejectText == null) {\n      this.rejectText = \"\";\n    }\n    byteBuf.writeIntLE(this.partitionNo);\n"))
bug("encode-clears-list", "C16", (PI, "        this.noPartitions.get(i).encode(byteBuf);\n      }\n", "        this.noPartitions.get(i).encode(byteBuf);\n      }\n      this.noPartitions.clear();\n"))
bug("encode-sorts-list", "C16", (PI, "      byteBuf.writeShortLE((short) this.noPartitions.size());", "      this.noPartitions.sort((a, b) -> a.getPartitionNo() - b.getPartitionNo());\n      byteBuf.writeShortLE((short) this.noPartitions.size());"))
bug("encode-guard-writable", "C16", (CR, "    byteBuf.writeIntLE(this.partitionNo);\n", "    if (byteBuf.writableBytes() < 100) {\n      return;\n    }\n    byteBuf.writeIntLE(this.partitionNo);\n"))
bug("encode-first-only-counter", "C16", (CR, "    byteBuf.writeLongLE(this.reportIndex);\n", "    byteBuf.writeLongLE(this.reportIndex++);\n"))
bug("encode-depends-position", "C16", (SSEB, "    byteBuf.writeLong(this.msgSeqNum);", "    byteBuf.writeLong(frameStart > 4096 ? 0L : this.msgSeqNum);"))
bug("encode-stale-length", "C07", (SSEB, "    this.msgBodyLen = (int) (bodyEnd - bodyStart);", "    if (this.msgBodyLen == 0) {\n      this.msgBodyLen = (int) (bodyEnd - bodyStart);\n    }"))
bug("encode-drains-last", "C16", (PI, "        this.noPartitions.get(i).encode(byteBuf);\n      }\n", "        this.noPartitions.get(i).encode(byteBuf);\n      }\n      if (this.noPartitions.size() > 100) {\n        this.noPartitions.remove(0);\n      }\n"))
bug("encode-system-time", "C16", (CR, "    byteBuf.writeLongLE(this.transactTime);", "    byteBuf.writeLongLE(this.transactTime == 0 ? System.currentTimeMillis() : this.transactTime);"))

# C17
bug("static-scratch-list", "C17", (PI, "      this.noPartitions = new ArrayList<>();", "      SHARED.clear();\n      this.noPartitions = SHARED;"), (PI, "  @Override\n  public void encode", "  private static final ArrayList<NoPartitions> SHARED = new ArrayList<>();\n\n  @Override\n  public void encode"))
bug("static-last-id", "C17", (PI, "    this.platformId = byteBuf.readShortLE();", "    this.platformId = byteBuf.readShortLE();\n    if (this.platformId == 0) {\n      this.platformId = last;\n    }\n    last = this.platformId;"), (PI, "  @Override\n  public void encode", "  private static short last;\n\n  @Override\n  public void encode"))
bug("static-scratch-bytes", "C17", (BC, "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "    byteBuf.readBytes(SCRATCH, 0, len);\n    String value = new String(SCRATCH, 0, len, StandardCharsets.UTF_8);"), (BC, "public interface BinaryCodec {\n", "public interface BinaryCodec {\n  byte[] SCRATCH = new byte[4096];\n"))
bug("static-element-reused", "C17", (PI, "        NoPartitions noPartitions_ = new NoPartitions();", "        NoPartitions noPartitions_ = ELEM;"), (PI, "  @Override\n  public void encode", "  private static final NoPartitions ELEM = new NoPartitions();\n\n  @Override\n  public void encode"))
same("empty-list-constant", (PI, "if (null == this.noPartitions || this.noPartitions.size() == 0)", "if (null == this.noPartitions || this.noPartitions.isEmpty())"))

# C22
bug("readable-guard", "C22", (CR, "    this.orderId = readFixedString(byteBuf, 16);", "    if (byteBuf.isReadable()) {\n      this.orderId = readFixedString(byteBuf, 16);\n    }"))
bug("readable-loop", "C22", (PI, "i < noPartitionsSize; i++) {\n        NoPartitions n", "i < noPartitionsSize && byteBuf.isReadable(); i++) {\n        NoPartitions n"))
bug("swallow-ioobe", "C22", (CR, "    this.orderId = readFixedString(byteBuf, 16);", "    try {\n      this.orderId = readFixedString(byteBuf, 16);\n    } catch (IndexOutOfBoundsException e) {\n      this.orderId = null;\n    }"))
bug("short-read-helper", "C22,C04", (BC, "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "    String value = byteBuf.readSlice(Math.min(len, byteBuf.readableBytes())).toString(StandardCharsets.UTF_8);"))
bug("read-charsequence-tail", "C22", (CR, "    this.orderId = readFixedString(byteBuf, 16);", "    this.orderId = byteBuf.readableBytes() < 16 ? \"\" : readFixedString(byteBuf, 16);"))
bug("swallow-in-frame", "C22", (SSEB, "    this.body.decode(byteBuf);\n", "    try {\n      this.body.decode(byteBuf);\n    } catch (RuntimeException e) {\n      this.body = null;\n      return;\n    }\n"))
bug("checksum-optional", "C22", (SSEB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.readableBytes() >= 4 ? byteBuf.readInt() : 0;"))
same("explicit-check", (BC, "    String value = byteBuf.readSlice(len)", "    if (byteBuf.readableBytes() < len) {\n      throw new IndexOutOfBoundsException(\"short buffer\");\n    }\n    String value = byteBuf.readSlice(len)"))
same("read-bytes-array", (BC, "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "    byte[] raw = new byte[len];\n    byteBuf.readBytes(raw);\n    String value = new String(raw, StandardCharsets.UTF_8);"))
same("rethrow-wrapped", (SSEB, "    this.body.decode(byteBuf);\n", "    try {\n      this.body.decode(byteBuf);\n    } catch (IndexOutOfBoundsException e) {\n      throw new IllegalStateException(\"truncated\", e);\n    }\n"))

# C23
bug("byte-counter", "C23", (PI, "for (int i = 0; i < noPartitionsSize; i++) {\n        NoPartitions n", "for (byte i = 0; i < noPartitionsSize; i++) {\n        NoPartitions n"))
bug("short-counter-encode", "C06", (PI, "for (int i = 0; i < this.noPartitions.size(); i++) {", "for (short i = 0; i < this.noPartitions.size(); i++) {"))
bug("skip-while-zero", "C23", (CR, "    this.applId = readFixedString(byteBuf, 3);", "    while (this.partitionNo < 0) {\n      this.partitionNo += 0;\n    }\n    this.applId = readFixedString(byteBuf, 3);"))
bug("recursive-trim", "C23", (BC, "      while (end > 0 && s.charAt(end - 1) == ch) {\n        end--;\n      }", "      while (end > 0 && s.charAt(end - 1) == ch) {\n        end = Math.max(end - 1, 1);\n      }"))

# C26
bug("getbytes-default", "C26", (BC, "value.getBytes(StandardCharsets.UTF_8)", "value.getBytes()"))
bug("decode-default-charset", "C26", (BC, "toString(StandardCharsets.UTF_8)", "toString(java.nio.charset.Charset.defaultCharset())"))
bug("default-locale", "C26", (CR, "writeFixedString(byteBuf, this.clearingFirm, 2);", "writeFixedString(byteBuf, this.clearingFirm == null ? null : this.clearingFirm.toUpperCase(), 2);"))
bug("latin1", "C26,C05", (BC, "value.getBytes(StandardCharsets.UTF_8)", "value.getBytes(StandardCharsets.ISO_8859_1)"))
same("charset-name", (BC, "value.getBytes(StandardCharsets.UTF_8)", "value.getBytes(java.nio.charset.Charset.forName(\"UTF-8\"))"))

# C27
bug("absolute-length-position", "C27", (SSEB, "byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "byteBuf.setInt(12, this.msgBodyLen);"))
bug("encode-clears-buffer", "C27", (SSEB, "    int frameStart = byteBuf.writerIndex();", "    byteBuf.clear();\n    int frameStart = byteBuf.writerIndex();"))
bug("decode-resets-reader", "C27", (SSEB, "    this.msgType = byteBuf.readInt();", "    byteBuf.readerIndex(0);\n    this.msgType = byteBuf.readInt();"))
bug("decode-discards", "C27", (SSEB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.readInt();\n    byteBuf.discardReadBytes();"))
bug("decode-releases", "C27", (SSEB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.readInt();\n    byteBuf.release();"))
bug("encode-moves-reader", "C27", (SSEB, "    byteBuf.writeInt(this.checksum);\n", "    byteBuf.writeInt(this.checksum);\n    byteBuf.readerIndex(frameStart);\n"))
bug("retain-leak", "C27", (BC, "byteBuf.readSlice(len).toString", "byteBuf.readRetainedSlice(len).toString"))
bug("decode-eats-rest", "C27", (SSEB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.readInt();\n    byteBuf.skipBytes(byteBuf.readableBytes() & 3);"))
bug("decode-peeks-next", "C27", (SSEB, "    this.checksum = byteBuf.readInt();", "    this.checksum = byteBuf.readInt();\n    if (byteBuf.isReadable() && byteBuf.getByte(byteBuf.readerIndex()) == 0) {\n      byteBuf.skipBytes(1);\n    }"))
same("writerindex-seek", (SSEB, "    byteBuf.setInt(msgBodyLenPos, this.msgBodyLen);", "    byteBuf.writerIndex(msgBodyLenPos);\n    byteBuf.writeInt(this.msgBodyLen);\n    byteBuf.writerIndex(bodyEnd);"))
same("retained-released", (BC, "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "    ByteBuf part = byteBuf.readRetainedSlice(len);\n    String value;\n    try {\n      value = part.toString(StandardCharsets.UTF_8);\n    } finally {\n      part.release();\n    }"))
same("to-string-range", (BC, "    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);", "    String value = byteBuf.toString(byteBuf.readerIndex(), len, StandardCharsets.UTF_8);\n    byteBuf.skipBytes(len);"))
same("pad-array", (BC, "    while (len > 0) {\n      byteBuf.writeByte(padChar);\n      len--;\n    }", "    if (len > 0) {\n      byte[] fill = new byte[len];\n      java.util.Arrays.fill(fill, (byte) padChar);\n      byteBuf.writeBytes(fill);\n    }"))
same("pad-for", (BC, "    while (len > 0) {\n      byteBuf.writeByte(padChar);\n      len--;\n    }", "    for (int i = 0; i < len; i++) {\n      byteBuf.writeByte(padChar);\n    }"))
same("presized-list", (PI, "new ArrayList<>();", "new ArrayList<>(noPartitionsSize);"))
same("list-foreach", (PI, "      for (int i = 0; i < this.noPartitions.size(); i++) {\n        this.noPartitions.get(i).encode(byteBuf);\n      }", "      for (NoPartitions item : this.noPartitions) {\n        item.encode(byteBuf);\n      }"))
same("list-lambda", (PI, "      for (int i = 0; i < this.noPartitions.size(); i++) {\n        this.noPartitions.get(i).encode(byteBuf);\n      }", "      this.noPartitions.forEach(item -> item.encode(byteBuf));"))
same("list-local-then-set", (PI, "      this.noPartitions = new ArrayList<>();\n", "      ArrayList<NoPartitions> items = new ArrayList<>();\n"), (PI, "        this.noPartitions.add(noPartitions_);\n      }", "        items.add(noPartitions_);\n      }\n      this.noPartitions = items;"))
same("list-countdown", (PI, "for (int i = 0; i < noPartitionsSize; i++) {\n        NoPartitions n", "for (int left = noPartitionsSize; left > 0; left--) {\n        NoPartitions n"))
same("list-while", (PI, "      for (int i = 0; i < noPartitionsSize; i++) {\n        NoPartitions n", "      while (this.noPartitions.size() < noPartitionsSize) {\n        NoPartitions n"))
same("early-return", (PI, "    if (noPartitionsSize > 0) {\n      this.noPartitions = new ArrayList<>();", "    if (noPartitionsSize <= 0) {\n      this.noPartitions = null;\n      return;\n    }\n    {\n      this.noPartitions = new ArrayList<>();"), (PI, "    } else {\n      this.noPartitions = null;\n    }", "    }"))
same("write-bytes-copy", (BC, "      byteBuf.writeBytes(bytes, 0, writedLen);", "      for (int i = 0; i < writedLen; i++) {\n        byteBuf.writeByte(bytes[i]);\n      }"))
same("whole-array", (BC, None, lambda s: s[:s.index("    int writedLen = 0;")] + """    byte[] out = new byte[len];
    java.util.Arrays.fill(out, (byte) padChar);
    if (value != null && !value.isEmpty()) {
      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);
      int n = Math.min(bytes.length, len);
      System.arraycopy(bytes, 0, out, padLeft ? len - n : 0, n);
    }
    byteBuf.writeBytes(out);
  }
""" + s[s.index("\n  public default void padChar"):]))
same("trim-clamped", (BC, "        end--;\n", "        end = Math.max(end - 1, 0);\n"))
bug("trim-stuck-at-end", "C23", (BC, "      while (start < len && s.charAt(start) == ch) {\n        start++;", "      while (start < len && s.charAt(start) == ch) {\n        start = Math.min(start + 1, len - 1);"))

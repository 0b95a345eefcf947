"""Structural rewritings (new classes, holders, templates) and bugs that need two sites."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import body, imp, add, inner
from cases4 import BC, SP, NP, BP, RP, SSEB, SZB, RCB, RNO, OR, PI, OC, SLOG, EI, BQ, EC, CSF
CASES = []
CODEC = "new:codec/src/main/java/com/finproto/codec/"


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


# ---------------------------------------------------------------- factories
HEAD = "    private final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();\n"
REGN = """package com.finproto.codec;

import java.util.HashMap;
import java.util.Map;
import java.util.function.Supplier;

public final class SupplierTable<K> {
  private final Map<K, Supplier<BinaryCodec>> entries = new HashMap<>();

  public BinaryCodec create(K key, String name) {
    Supplier<BinaryCodec> s = entries.get(key);
    if (s == null) {
      throw new IllegalArgumentException("Unsupported " + name + ":" + key);
    }
    return s.get();
  }

  public void register(K key, Supplier<BinaryCodec> s) {
    entries.put(key, s);
  }

  public boolean remove(K key) {
    return entries.remove(key) != null;
  }
}
"""


def delegating(s):
    s = s.replace(HEAD, "    private final com.finproto.codec.SupplierTable<Integer> bodyMap = new com.finproto.codec.SupplierTable<>();\n")
    s = re.sub(r"      Supplier<BinaryCodec> supplier = bodyMap.get\(msgType\);(.|\n)*?return supplier.get\(\);", '      return bodyMap.create(msgType, "MsgType");', s)
    s = s.replace("bodyMap.put(msgType, supplier)", "bodyMap.register(msgType, supplier)")
    return s.replace("return null != bodyMap.remove(msgType)", "return bodyMap.remove(msgType)")


same("st-table-class", (CODEC + "SupplierTable.java", None, REGN), (RCB, None, delegating), (SZB, None, delegating))
bug("st-table-class-abs", "C12,C13", (CODEC + "SupplierTable.java", None, REGN.replace("entries.get(key)", "entries.getOrDefault(key, entries.get(key instanceof Integer ? (Object) Math.abs((Integer) key) : key))")), (RCB, None, delegating))
same("st-static-map", (RCB, None, lambda s: s.replace(HEAD, "    private static final Map<Integer, Supplier<BinaryCodec>> bodyMap = new HashMap<>();\n")))
same("st-lambda-new", (RCB, None, lambda s: re.sub(r"(\w+)::new\)", r"() -> new \1())", s)))
same("st-supplier-class", (RCB, None, lambda s: s.replace("NewOrder::new)", "new Supplier<BinaryCodec>() {\n        @Override\n        public BinaryCodec get() {\n          return new NewOrder();\n        }\n      })")))
same("st-supplier-method", (RCB, None, lambda s: s.replace("NewOrder::new)", "RcBinary::newOrder)").replace("  public static enum", "  private static BinaryCodec newOrder() {\n    return new NewOrder();\n  }\n\n  public static enum")))
bug("st-supplier-shared", "C12,C17", (RCB, None, lambda s: s.replace("NewOrder::new)", "RcBinary::newOrder)").replace("  public static enum", "  private static final NewOrder PROTOTYPE = new NewOrder();\n\n  private static BinaryCodec newOrder() {\n    return PROTOTYPE;\n  }\n\n  public static enum")))
same("st-create-ternary-throw", (RCB, None, lambda s: re.sub(r"      Supplier<BinaryCodec> supplier = bodyMap.get\(msgType\);(.|\n)*?return supplier.get\(\);", "      return find(msgType).get();", s).replace("    public void register(", "    private Supplier<BinaryCodec> find(Integer msgType) {\n      if (!bodyMap.containsKey(msgType)) {\n        throw unsupported(msgType);\n      }\n      return bodyMap.get(msgType);\n    }\n\n    private static IllegalArgumentException unsupported(Object code) {\n      return new IllegalArgumentException(\"Unsupported MsgType:\" + code);\n    }\n\n    public void register(")))
same("st-create-nfe", (RCB, "throw new IllegalArgumentException(\"Unsupported MsgType:\" + msgType);", "throw new java.util.IllegalFormatWidthException(0);"))
bug("st-create-uoe", "C13", (RCB, "throw new IllegalArgumentException(\"Unsupported MsgType:\" + msgType);", "throw new UnsupportedOperationException(\"Unsupported MsgType:\" + msgType);"))
same("st-static-instance", (RCB, "BodyMessageFactory.getInstance().create(", "BodyMessageFactory.INSTANCE.create("))
same("st-decode-switch-null", (RCB, "    this.body = BodyMessageFactory.getInstance().create(this.msgType);\n    this.body.decode(byteBuf);", "    BinaryCodec decoded = BodyMessageFactory.getInstance().create(this.msgType);\n    decoded.decode(byteBuf);\n    this.body = decoded;"))
same("st-bulk-register", (RCB, None, lambda s: s.replace("      getInstance().register((int) 100101, NewOrder::new);\n      getInstance().register((int) 200102, OrderConfirm::new);\n", "      Map<Integer, Supplier<BinaryCodec>> m = new HashMap<>();\n      m.put(100101, NewOrder::new);\n      m.put(200102, OrderConfirm::new);\n      m.forEach(getInstance()::register);\n")))
same("st-code-constants", (RCB, None, lambda s: s.replace("(int) 100101", "NEW_ORDER").replace("    private final Map<Integer", "    public static final int NEW_ORDER = 100100 + 1;\n    private final Map<Integer")))
bug("st-code-typo", "C12", (RCB, None, lambda s: s.replace("(int) 200115", "REPORT").replace("    private final Map<Integer", "    private static final int REPORT = 200_105 + 0xA + 1;\n    private final Map<Integer")))
# ---------------------------------------------------------------- frames as templates
TPL = """package com.finproto.codec;

import io.netty.buffer.ByteBuf;

public abstract class LengthFrame {
  protected abstract void header(ByteBuf out);

  protected abstract void content(ByteBuf out);

  protected abstract void length(int n);

  public void encode(ByteBuf out) {
    header(out);
    int at = out.writerIndex();
    out.writeInt(0);
    int from = out.writerIndex();
    content(out);
    int n = out.writerIndex() - from;
    length(n);
    out.setInt(at, n);
  }
}
"""


def template(s):
    s = s.replace("public class RcBinary implements BinaryCodec", "public class RcBinary extends com.finproto.codec.LengthFrame implements BinaryCodec")
    a = s.index("  @Override\n  public void encode(")
    b = s.index("  @Override\n  public void decode(")
    return s[:a] + """  @Override
  protected void header(ByteBuf out) {
    out.writeInt(this.msgType);
    out.writeInt(this.version);
  }

  @Override
  protected void content(ByteBuf out) {
    if (this.body != null) {
      this.body.encode(out);
    }
  }

  @Override
  protected void length(int n) {
    this.msgBodyLen = n;
  }

""" + s[b:]


same("st-template", (CODEC + "LengthFrame.java", None, TPL), (RCB, None, template))
bug("st-template-length", "C07", (CODEC + "LengthFrame.java", None, TPL.replace("int n = out.writerIndex() - from;", "int n = out.writerIndex() - at;")), (RCB, None, template))
bug("st-template-start", "C07", (CODEC + "LengthFrame.java", None, TPL.replace("int from = out.writerIndex();", "int from = out.readerIndex() + 12;")), (RCB, None, template))
bug("st-template-set", "C07", (CODEC + "LengthFrame.java", None, TPL), (RCB, None, lambda s: template(s).replace("    this.msgBodyLen = n;", "    if (n > this.msgBodyLen) {\n      this.msgBodyLen = n;\n    }")))
# ---------------------------------------------------------------- writers and readers
WRT = """package com.finproto.codec;

import io.netty.buffer.ByteBuf;

public final class Writer {
  private final ByteBuf buf;
  private final BinaryCodec owner;

  public Writer(BinaryCodec owner, ByteBuf buf) {
    this.owner = owner;
    this.buf = buf;
  }

  public Writer u32(int v) {
    buf.writeInt(v);
    return this;
  }

  public Writer u64(long v) {
    buf.writeLong(v);
    return this;
  }

  public Writer text(String v, int width) {
    owner.writeFixedString(buf, v, width);
    return this;
  }
}
"""


def fluent(s):
    return body(s, "public void encode(", """    new com.finproto.codec.Writer(this, byteBuf)
        .u32(bizId)
        .text(bizPbu, 8)
        .text(clOrdId, 10)
        .text(securityId, 12)
        .u32(ordRejReason)
        .u32(tradeDate)
        .u64(transactTime)
        .text(userInfo, 32);
""")


same("st-fluent", (CODEC + "Writer.java", None, WRT), (OR, None, fluent))
bug("st-fluent-int", "C01", (CODEC + "Writer.java", None, WRT.replace("buf.writeLong(v);", "buf.writeLong((int) v);")), (OR, None, fluent))
bug("st-fluent-skip", "C02", (CODEC + "Writer.java", None, WRT.replace("    owner.writeFixedString(buf, v, width);", "    if (v != null) {\n      owner.writeFixedString(buf, v, width);\n    }")), (OR, None, fluent))
bug("st-fluent-blank", "C05", (CODEC + "Writer.java", None, WRT.replace("    owner.writeFixedString(buf, v, width);", "    owner.writeFixedString(buf, v == null ? null : v.trim(), width);")), (OR, None, fluent))
# a text helper that keeps its last result
CACHE = '    String value = byteBuf.readSlice(len).toString(StandardCharsets.UTF_8);\n'
same("st-read-intern", (BC, CACHE, CACHE.replace("UTF_8);", "UTF_8).intern();")))
bug("st-read-strip-cr", "C05", (BC, CACHE, CACHE.replace("UTF_8);", "UTF_8).replace(\"\\r\", \"\");")))
same("st-read-bytes", (BC, CACHE, "    byte[] raw = new byte[len];\n    byteBuf.readBytes(raw);\n    String value = new String(raw, 0, len, StandardCharsets.UTF_8);\n"))
bug("st-read-available", "C22", (BC, CACHE, "    int take = Math.min(len, byteBuf.readableBytes());\n    String value = byteBuf.readSlice(take).toString(StandardCharsets.UTF_8);\n"))
bug("st-read-zero-cut", "C05", (BC, CACHE, CACHE + "    int nul = value.indexOf('\\0');\n    if (nul > 0) {\n      value = value.substring(0, nul);\n    }\n"))
bug("st-write-trim-nul", "C05", (BC, "      byte[] bytes = value.getBytes(StandardCharsets.UTF_8);\n", "      byte[] bytes = value.replace('\\0', ' ').getBytes(StandardCharsets.UTF_8);\n"))
bug("st-pad-high", "C05", (BC, "      byteBuf.writeByte(padChar);", "      byteBuf.writeByte(len > 64 ? 0 : padChar);"))
same("st-pad-zero-block", (BC, None, lambda s: body(s, "void padChar(", "    if (padChar == 0) {\n      byteBuf.writeZero(Math.max(len, 0));\n      return;\n    }\n    for (int i = 0; i < len; i++) {\n      byteBuf.writeByte(padChar);\n    }\n")))
bug("st-pad-zero-digit", "C05", (BC, None, lambda s: body(s, "void padChar(", "    if (padChar == '0') {\n      byteBuf.writeZero(Math.max(len, 0));\n      return;\n    }\n    for (int i = 0; i < len; i++) {\n      byteBuf.writeByte(padChar);\n    }\n")))
# ---------------------------------------------------------------- objects
same("st-eq-canequal", (OR, None, lambda s: s.replace("    if (null == obj || getClass() != obj.getClass()) {\n      return false;\n    }", "    if (!sameClass(obj)) {\n      return false;\n    }").replace("  @Override\n  public String toString", "  private boolean sameClass(Object o) {\n    return o != null && getClass().equals(o.getClass());\n  }\n\n  @Override\n  public String toString")))
same("st-eq-try-cast", (OR, None, lambda s: s.replace("    if (null == obj || getClass() != obj.getClass()) {\n      return false;\n    }", "    if (obj == null) {\n      return false;\n    }\n    if (!OrderReject.class.equals(obj.getClass()) || this.getClass() != OrderReject.class) {\n      return getClass() == obj.getClass() && ((OrderReject) obj).same(this);\n    }").replace("    OrderReject orther_ = (OrderReject) obj;\n    return", "    return same((OrderReject) obj);\n  }\n\n  private boolean same(OrderReject orther_) {\n    return")))
same("st-eq-split", (OR, None, lambda s: s.replace("        && Objects.equals(ordRejReason", "        && rest(orther_);\n  }\n\n  private boolean rest(OrderReject orther_) {\n    return Objects.equals(ordRejReason")))
same("st-eq-if-chain", (OR, None, lambda s: re.sub(r"    return Objects\.equals\(bizId(.|\n)*?;", lambda m: "".join("    if (!" + x.strip() + ") {\n      return false;\n    }\n" for x in re.sub(r"^\s*return |;$", "", m.group(0)).split("&&")) + "    return true;", s)))
bug("st-eq-if-chain-miss", "C18", (OR, None, lambda s: re.sub(r"    return Objects\.equals\(bizId(.|\n)*?;", lambda m: "".join("    if (!" + x.strip() + ") {\n      return " + ("userInfo == null" if "tradeDate" in x else "false") + ";\n    }\n" for x in re.sub(r"^\s*return |;$", "", m.group(0)).split("&&")) + "    return true;", s)))
same("st-hash-inline", (OR, None, lambda s: re.sub(r"    return Objects\.hash\((.|\n)*?;", "    final int prime = 31;\n    int result = 1;\n    result = prime * result + bizId;\n    result = prime * result + ((bizPbu == null) ? 0 : bizPbu.hashCode());\n    result = prime * result + (int) (transactTime ^ (transactTime >>> 32));\n    return result;", s)))
bug("st-hash-lower", "C19", (OR, None, lambda s: re.sub(r"    return Objects\.hash\((.|\n)*?;", "    return 31 * bizId + clOrdId.toLowerCase().hashCode();", s)))
same("st-str-format", (OR, None, lambda s: re.sub(r"    return \"OrderReject \[\"(.|\n)*?;", "    return String.format(\n        \"OrderReject [bizId=%d, bizPbu=%s, clOrdId=%s, securityId=%s, ordRejReason=%d, tradeDate=%d, transactTime=%d, userInfo=%s]\",\n        bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo);", s)))
bug("st-str-format-width", "C20", (OR, None, lambda s: re.sub(r"    return \"OrderReject \[\"(.|\n)*?;", "    return String.format(\n        \"OrderReject [bizId=%d, bizPbu=%.6s, clOrdId=%s, securityId=%s, ordRejReason=%d, tradeDate=%d, transactTime=%d, userInfo=%s]\",\n        bizId, bizPbu, clOrdId, securityId, ordRejReason, tradeDate, transactTime, userInfo);", s)))
bug("st-str-unsigned", "C20", (OR, None, lambda s: s.replace("        + this.ordRejReason", "        + Integer.toUnsignedString(this.ordRejReason)")))
bug("st-str-strip", "C20", (OR, None, lambda s: s.replace("        + this.userInfo\n", "        + (this.userInfo == null ? null : this.userInfo.trim())\n")))
# accessors through a helper
same("st-set-helper", (OR, None, lambda s: s.replace("    this.tradeDate = tradeDate;", "    assign(tradeDate);").replace("  @Override\n  public String toString", "  private void assign(int v) {\n    tradeDate = v;\n  }\n\n  @Override\n  public String toString")))
bug("st-set-both", "C21", (OR, None, lambda s: s.replace("    this.transactTime = transactTime;", "    this.transactTime = transactTime;\n    if (this.tradeDate == 0) {\n      this.tradeDate = (int) (transactTime / 1000000000L);\n    }")))
bug("st-set-invalidate", "C21", (OR, None, lambda s: s.replace("    this.bizPbu = bizPbu;", "    if (bizPbu != null && !bizPbu.equals(this.bizPbu)) {\n      this.clOrdId = null;\n    }\n    this.bizPbu = bizPbu;")))
# ---------------------------------------------------------------- two sites
bug("st-two-counter", "C16", (OR, None, lambda s: s.replace("    byteBuf.writeInt(this.ordRejReason);", "    byteBuf.writeInt(this.ordRejReason + retries);").replace("  private int bizId;", "  private int bizId;\n  private transient int retries;").replace("    writeFixedString(byteBuf, this.userInfo, 32);", "    writeFixedString(byteBuf, this.userInfo, 32);\n    retries++;")))
bug("st-two-flag", "C15", (OR, None, lambda s: s.replace("    this.bizId = byteBuf.readInt();", "    int id = byteBuf.readInt();\n    if (!decoded) {\n      this.bizId = id;\n    }\n    decoded = true;").replace("  private int bizId;", "  private int bizId;\n  private boolean decoded;")))
bug("st-two-frame-cache", "C16,C07", (RCB, None, lambda s: s.replace("    if (this.body != null) {\n      this.body.encode(byteBuf);\n    }", "    if (this.body != null) {\n      if (cached == null) {\n        ByteBuf b = io.netty.buffer.Unpooled.buffer();\n        this.body.encode(b);\n        cached = new byte[b.readableBytes()];\n        b.readBytes(cached);\n      }\n      byteBuf.writeBytes(cached);\n    }").replace("  private int msgType;", "  private int msgType;\n  private byte[] cached;")))
bug("st-two-frame-cache-set", "C16", (RCB, None, lambda s: s.replace("    if (this.body != null) {\n      this.body.encode(byteBuf);\n    }", "    if (this.body != null) {\n      if (cached == null) {\n        ByteBuf b = io.netty.buffer.Unpooled.buffer();\n        this.body.encode(b);\n        cached = new byte[b.readableBytes()];\n        b.readBytes(cached);\n      }\n      byteBuf.writeBytes(cached);\n    }").replace("  private int msgType;", "  private int msgType;\n  private byte[] cached;").replace("    this.body = body;", "    this.body = body;\n    this.cached = null;")))

# ---------------------------------------------------------------- the padding of an empty field written directly
UI = "    writeFixedString(byteBuf, this.userInfo, 32);"
same("st-blank-pad", (OR, UI, "    if (this.userInfo == null || this.userInfo.isEmpty()) {\n      padChar(byteBuf, 32, (char) 32);\n    } else {\n      writeFixedString(byteBuf, this.userInfo, 32);\n    }"))
same("st-blank-loop", (OR, UI, "    if (this.userInfo == null) {\n      for (int i = 0; i < 32; i++) {\n        byteBuf.writeByte(' ');\n      }\n    } else {\n      writeFixedString(byteBuf, this.userInfo, 32);\n    }"))
same("st-blank-array", (OR, UI, "    if (this.userInfo == null) {\n      byte[] b = new byte[32];\n      java.util.Arrays.fill(b, (byte) 32);\n      byteBuf.writeBytes(b);\n    } else {\n      writeFixedString(byteBuf, this.userInfo, 32);\n    }"))
bug("st-blank-zero", "C01,C02,C05", (OR, UI, "    if (this.userInfo == null) {\n      byteBuf.writeZero(32);\n    } else {\n      writeFixedString(byteBuf, this.userInfo, 32);\n    }"))
bug("st-blank-short", "C01,C02,C04", (OR, UI, "    if (this.userInfo == null) {\n      padChar(byteBuf, 31, (char) 32);\n    } else {\n      writeFixedString(byteBuf, this.userInfo, 32);\n    }"))

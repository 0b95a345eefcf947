"""Rewritings and bugs in the factories' maps, in ways the other files do not have."""
import re
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from cases4 import body, imp, add, inner
from cases4 import BC, SP, NP, BP, RP, SSEB, SZB, RCB, RNO, OR, PI, OC, SLOG, EI, BQ, EC, CSF
CASES = []


def bug(name, bad, *edits):
    CASES.append(dict(name=name, bad=bad.split(","), edits=edits))


def same(name, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def hard(name, bad, *edits):
    CASES.append(dict(name=name, bad=[], edits=edits))


def put(code):
    return (SZB, "      bodyMap.put(msgType, supplier);", "      " + code)


def rem(code):
    return (SZB, "      return null != bodyMap.remove(msgType);", "      " + code)


same("fm-put-unless-same", put("if (bodyMap.get(msgType) != supplier) {\n        bodyMap.put(msgType, supplier);\n      }"))
same("fm-put-unless-equal", put("if (!supplier.equals(bodyMap.get(msgType))) {\n        bodyMap.put(msgType, supplier);\n      }"))
same("fm-merge-new", put("bodyMap.merge(msgType, supplier, (a, b) -> b);"))
same("fm-compute", put("bodyMap.compute(msgType, (c, a) -> supplier);"))
same("fm-putall", put("bodyMap.putAll(java.util.Collections.singletonMap(msgType, supplier));"))
same("fm-remove-put", put("bodyMap.remove(msgType);\n      bodyMap.putIfAbsent(msgType, supplier);"))
same("fm-replace-or-put", put("if (bodyMap.replace(msgType, supplier) == null) {\n        bodyMap.put(msgType, supplier);\n      }"))
same("fm-contains-replace", put("if (bodyMap.containsKey(msgType)) {\n        bodyMap.replace(msgType, supplier);\n      } else {\n        bodyMap.put(msgType, supplier);\n      }"))
same("fm-present-compute", put("if (bodyMap.computeIfPresent(msgType, (c, a) -> supplier) == null) {\n        bodyMap.put(msgType, supplier);\n      }"))
bug("fm-merge-old", "C12", put("bodyMap.merge(msgType, supplier, (a, b) -> a);"))
bug("fm-replace-only", "C12", (SZB, "      bodyMap.put(msgType, supplier);", "      if (bodyMap.size() < 78) {\n        bodyMap.put(msgType, supplier);\n      } else {\n        bodyMap.replace(msgType, supplier);\n      }"))
bug("fm-contains-value", "C12", put("if (!bodyMap.containsValue(supplier)) {\n        bodyMap.put(msgType, supplier);\n      }"))
bug("fm-values-loop", "C12", put("for (Supplier<BinaryCodec> s : bodyMap.values()) {\n        if (s == supplier) {\n          return;\n        }\n      }\n      bodyMap.put(msgType, supplier);"))
bug("fm-values-remove", "C12", put("bodyMap.values().remove(supplier);\n      bodyMap.put(msgType, supplier);"))
bug("fm-full", "C12", put("if (!bodyMap.containsKey(msgType) || bodyMap.size() < 100) {\n        bodyMap.put(msgType, supplier);\n      }"))
bug("fm-replaceall", "C12", put("Supplier<BinaryCodec> was = bodyMap.put(msgType, supplier);\n      if (was != null) {\n        bodyMap.replaceAll((c, s) -> s == was ? supplier : s);\n      }"))
bug("fm-present-only", "C12", put("bodyMap.computeIfPresent(msgType, (c, a) -> supplier);\n      bodyMap.putIfAbsent(msgType % 1000000, supplier);"))
same("fm-rem-contains", rem("boolean there = bodyMap.containsKey(msgType);\n      bodyMap.remove(msgType);\n      return there;"))
same("fm-rem-keyset", rem("return bodyMap.keySet().remove(msgType);"))
same("fm-rem-keyset-if", rem("return bodyMap.keySet().removeIf(k -> k.equals(msgType));"))
same("fm-rem-entryset", rem("return bodyMap.entrySet().removeIf(x -> x.getKey().equals(msgType));"))
same("fm-rem-compute", rem("boolean there = bodyMap.get(msgType) != null;\n      bodyMap.computeIfPresent(msgType, (c, s) -> null);\n      return there;"))
same("fm-rem-iter", rem("java.util.Iterator<Integer> it = bodyMap.keySet().iterator();\n      while (it.hasNext()) {\n        if (it.next().equals(msgType)) {\n          it.remove();\n          return true;\n        }\n      }\n      return false;"))
bug("fm-rem-identity", "C12,C13", rem("return bodyMap.keySet().removeIf(k -> k == msgType);"))
bug("fm-rem-ge", "C12", rem("return bodyMap.keySet().removeIf(k -> k / 10 == msgType / 10);"))
bug("fm-rem-same-supplier", "C12", rem("Supplier<BinaryCodec> was = bodyMap.remove(msgType);\n      bodyMap.values().removeIf(s -> s == was);\n      return was != null;"))
bug("fm-rem-to-fallback", "C13", rem("return null != bodyMap.replace(msgType, Heartbeat::new);"))
bug("fm-rem-not-default", "C13", rem("if (msgType <= 10) {\n        return false;\n      }\n      return null != bodyMap.remove(msgType);"))
# the reverse table of the SSE factory
RV = "      reverseMap.values().removeIf(value -> value.equals(msgType));\n      bodyMap.put(msgType, supplier);\n      reverseMap.put(clazz, msgType);"
RM = "      reverseMap.values().removeIf(value -> value.equals(msgType));\n      return null != bodyMap.remove(msgType);"
def rv(c): return (SSEB, RV, c)
def rm(c): return (SSEB, RM, c)
same("rv-entryset", rv("      reverseMap.entrySet().removeIf(x -> msgType.equals(x.getValue()));\n      reverseMap.put(clazz, msgType);\n      bodyMap.put(msgType, supplier);"))
same("rv-compute", rv("      reverseMap.values().removeIf(msgType::equals);\n      bodyMap.compute(msgType, (k, v) -> supplier);\n      reverseMap.merge(clazz, msgType, (a, b) -> b);"))
same("rv-singleton", rv("      reverseMap.values().removeAll(java.util.Collections.singleton(msgType));\n      bodyMap.put(msgType, supplier);\n      reverseMap.put(clazz, msgType);"))
same("rv-iter", rv("      for (java.util.Iterator<Integer> it = reverseMap.values().iterator(); it.hasNext(); ) {\n        if (msgType.equals(it.next())) {\n          it.remove();\n        }\n      }\n      bodyMap.put(msgType, supplier);\n      reverseMap.put(clazz, msgType);"))
bug("rv-put-first", "C14", rv("      bodyMap.put(msgType, supplier);\n      reverseMap.put(clazz, msgType);\n      reverseMap.values().removeIf(value -> value.equals(msgType));"))
bug("rv-absent", "C14", rv("      reverseMap.values().removeIf(value -> value.equals(msgType));\n      bodyMap.put(msgType, supplier);\n      reverseMap.putIfAbsent(clazz, msgType);"))
bug("rv-merge-min", "C14", rv("      reverseMap.values().removeIf(value -> value.equals(msgType));\n      bodyMap.put(msgType, supplier);\n      reverseMap.merge(clazz, msgType, Math::min);"))
bug("rv-guarded", "C14", rv("      if (bodyMap.put(msgType, supplier) != supplier) {\n        reverseMap.values().removeIf(value -> value.equals(msgType));\n        reverseMap.put(clazz, msgType);\n      }"))
bug("rv-identity", "C14", rv("      reverseMap.values().removeIf(value -> value == msgType);\n      bodyMap.put(msgType, supplier);\n      reverseMap.put(clazz, msgType);"))
bug("rv-old-code-gone", "C12", rv("      reverseMap.values().removeIf(value -> value.equals(msgType));\n      bodyMap.put(msgType, supplier);\n      Integer old = reverseMap.put(clazz, msgType);\n      if (old != null && !old.equals(msgType)) {\n        bodyMap.remove(old);\n      }"))
same("rm-order", rm("      Supplier<BinaryCodec> was = bodyMap.remove(msgType);\n      reverseMap.values().removeIf(value -> value.equals(msgType));\n      return was != null;"))
same("rm-if-there", rm("      if (bodyMap.remove(msgType) == null) {\n        reverseMap.values().removeIf(value -> value.equals(msgType));\n        return false;\n      }\n      reverseMap.values().removeIf(value -> value.equals(msgType));\n      return true;"))
bug("rm-by-create", "C14", rm("      Supplier<BinaryCodec> was = bodyMap.remove(msgType);\n      if (was != null) {\n        reverseMap.remove(was.get().getClass(), msgType);\n      }\n      return was != null;"))
bug("rm-keeps-reverse", "C14", rm("      boolean there = null != bodyMap.remove(msgType);\n      if (there && reverseMap.size() > 14) {\n        reverseMap.values().removeIf(value -> value.equals(msgType));\n      }\n      return there;"))
bug("rm-low-byte", "C14", rm("      reverseMap.values().removeIf(value -> value.byteValue() == msgType.byteValue());\n      return null != bodyMap.remove(msgType);"))

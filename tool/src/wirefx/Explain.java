package wirefx;

import java.util.*;

/** What each check analyses and by what rule, for the evidence file. */
final class Explain {
  private static final Map<String, String> M = new HashMap<>();

  private static void e(String id, String s) {
    M.put(id, s);
  }

  static {
    String each = "Every message class found by type (implements BinaryCodec) is analysed, one scenario per absent/empty/filled text, list or optional group (thorough: every pair). ";
    e("C01", each + "encode's effect summary is turned into a symbolic byte stream, decode's summary is run over that stream into a new object, and each resulting field term is compared with the encoded one; decode has to consume the stream item by item. The fixed-text writer and reader are composed likewise, and the dispatch tables give the class of each body.");
    e("C02", each + "The symbolic byte stream of encode is matched item by item with spec/layout.txt: value provenance, width, byte order, text width, padding, prefix kind, nesting and repetition.");
    e("C03", "Every multi-byte read or write effect in the summaries of every encode and decode (helpers inlined) has a byte order; it is compared with that of the message's module, and with the layout specification per field.");
    e("C04", "The fixed-text writer is summarised over the length relations (absent, empty, shorter, exact, longer, in encoded bytes) and the number of bytes appended is compared with the width; the reader's consumption likewise; every fixed-width field's width argument is compared with the specification and between encode and decode.");
    e("C05", "The bytes appended by the fixed-text writer are compared region by region (text, padding) with the declared pad, side and UTF-8 encoding; the reader's trim loop is summarised into the removed run; padding arguments of every field are compared with the specification and between encode and decode; the field must hold the reader's result.");
    e("C06", each + "The prefix term is compared with the symbolic size or element count of what follows, and in decode the count that governs the loop or byte run has to be the prefix just read, zero-extended.");
    e("C07", "For each of the four frames and each absent/filled body, over any initial writer position and packet state: the final value at the length position and of the packet's length field is compared with the symbolic size of the body's bytes.");
    e("C08", "For each of the three frames: the checksum effect's buffer, first byte, extent, order after all other writes (back-patching included), algorithm and destination are compared with the frame.");
    e("C09", "Each service's loop is summarised for a symbolic byte and state. CRCs: the update is an affine map over GF(2) compared bit by bit with the reference recurrence, with start value, final xor, range and lookup tables folded in. Sums: residue modulo 256 over all bytes. Verification: accepted exactly on equality, absent values included.");
    e("C10", "Effect sets of calc, verify and everything they call: no write to the buffer, every cursor move restored on all exits, no field or static written, no state read that an earlier computation could have changed.");
    e("C11", "register, get and remove are summarised as map transformers over an arbitrary earlier map and compared with the specified algebra; the initial map's entries are evaluated from the initialisers.");
    e("C12", "For each of the 19 dispatch points the term of the decoded body is evaluated for every code of spec/dispatch.txt over the initial registry, and for every further registered code; each has to be a new instance of the specified class that then reads the body. Factory register/remove are compared with the map algebra.");
    e("C13", "For each of the 19 dispatch points decode is followed with the lookup failing: it has to reach an uncaught IllegalArgumentException before the body is read; the factories' create likewise.");
    e("C14", "Forward and reverse maps of the SSE factory are evaluated symbolically: the initial tables are inverse to each other, register and remove keep them so for any earlier maps; the named codes are distinct and fromValue returns the name with the whole value or throws.");
    e("C15", each + "decode's summary starts from an arbitrary object; each field term afterwards is searched for atoms of the earlier object.");
    e("C16", "Effects of every encode: each field written has to be the frame's own length or checksum (from this encoding), no list or nested message is changed, and no byte written depends on mutable state outside the message, on the earlier value of a computed field or on the buffer's earlier contents.");
    e("C17", "All reads and writes of static state reachable from any constructor, encode, decode, accessor, equals, hashCode or toString; objects that come from statics or shared caches and are stored in a message; the registries are exempt only in their registration calls.");
    e("C18", "The result term of each equals, over two arbitrary objects, is reduced to a conjunction of per-field equality atoms and compared with all instance fields; class, null and identity cases are evaluated; dereferences of absent fields are reported.");
    e("C19", "The atoms of each hashCode term are compared with the fields equality compares; identity hashes, mutable statics, recursion on the object itself and dereferences of absent fields are reported.");
    e("C20", "The concatenation term of each toString: class name, and for every field its name directly followed by its value, once.");
    e("C21", "For each getX/setX pair: the getter's term over the setter's heap is the argument, other fields keep their terms, getters have no effects.");
    e("C22", "Effects of every decode: each wire item is consumed by a checked read, nothing depends on readableBytes or similar, no handler that can catch a read failure falls through, nothing is skipped or addressed absolutely without a check.");
    e("C23", "Each loop in decode: trip count a constant or a count read, induction variable at least as wide, no state in which it stands still, nothing in the body that resets it; allocation sizes; call-graph cycles without a read.");
    e("C24", "Each bit of each bitmap's backing value after set/clear/new/get/write is a canonical decision graph over the earlier bits, for every position below the bit count; compared with the specified function.");
    e("C25", "The bytes written are decision graphs over the backing bits; the reader is interpreted over them and each bit compared with the bit of the same position; numbers of bytes written and read are compared.");
    e("C26", "Effects of every encode and decode: no call of a platform-dependent source (default charset, locale, clock, random, properties, environment, identity hash, unordered iteration) in the resolved call graph; every charset argument is UTF-8.");
    e("C27", "Cursor effects of every encode and decode: only relative writes, or absolute ones at an index remembered from this call's writer position and inside what has been written; no reader move in encode; no write in decode; no retain, release, clear or escaping buffer.");
  }

  static String of(String id) {
    return M.getOrDefault(id, "");
  }

  static List<String> assumptions(String id) {
    List<String> l = new ArrayList<>();
    l.add("javac's attribution of the source is what runs; sources are compiled as the Gradle build does");
    if (id.compareTo("C17") <= 0 || id.compareTo("C22") >= 0)
      l.add("the library model: Netty ByteBuf primitives have their documented width, byte order, cursor effect and bounds check; java.util collections and java.lang text behave as documented");
    if (List.of("C02", "C03", "C12").contains(id)) l.add("the specification under /verif/spec, frozen from the pinned tree, is the protocol");
    if (List.of("C01", "C06", "C07").contains(id)) l.add("sizes fit the width of their prefixes");
    if (List.of("C11", "C12", "C13", "C14", "C17").contains(id)) l.add("registration happens in one thread");
    if (id.equals("C09")) l.add("byte sums stay below 2^31");
    if (id.equals("C22")) l.add("checked Netty reads fail when fewer bytes are readable than asked for");
    return l;
  }
}

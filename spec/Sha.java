import java.security.MessageDigest;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC override of Sha!ParentHash: SHA-512/256 over the concatenation of two 32 byte hex strings. */
public class Sha {
    private static final char[] HEX = "0123456789abcdef".toCharArray();
    private static final ThreadLocal<MessageDigest> MD = ThreadLocal.withInitial(() -> {
        try {
            return MessageDigest.getInstance("SHA-512/256");
        } catch (Exception e) {
            throw new RuntimeException(e);
        }
    });

    private static void put(byte[] out, int off, Value v) {
        String s = ((StringValue) v).getVal().toString();
        if (s.length() != 64) throw new RuntimeException("not a 32 byte hash: " + s);
        for (int i = 0; i < 32; i++)
            out[off + i] = (byte) (Character.digit(s.charAt(2 * i), 16) * 16 + Character.digit(s.charAt(2 * i + 1), 16));
    }

    public static Value ParentHash(Value l, Value r) {
        byte[] in = new byte[64];
        put(in, 0, l);
        put(in, 32, r);
        byte[] h = MD.get().digest(in);
        char[] c = new char[64];
        for (int i = 0; i < 32; i++) {
            c[2 * i] = HEX[(h[i] >> 4) & 15];
            c[2 * i + 1] = HEX[h[i] & 15];
        }
        return new StringValue(new String(c));
    }

    public static Value MessageBytes(Value x) {
        return IntValue.gen(((StringValue) x).getVal().toString().length() / 2);
    }

    public static Value Digest(Value v, Value bits, Value pieces) throws Exception {
        MessageDigest md = MessageDigest.getInstance(((IntValue) v).val == 256 ? "SHA-512/256" : "SHA-512");
        for (Value p : ((TupleValue) pieces.toTuple()).elems) {
            Value[] e = ((TupleValue) p.toTuple()).elems;
            String s = ((StringValue) e[0]).getVal().toString();
            byte[] b = new byte[s.length() / 2];
            for (int i = 0; i < b.length; i++)
                b[i] = (byte) (Character.digit(s.charAt(2 * i), 16) * 16 + Character.digit(s.charAt(2 * i + 1), 16));
            for (int i = ((IntValue) e[1]).val; i > 0; i--) md.update(b);
        }
        byte[] h = md.digest();
        StringBuilder c = new StringBuilder();
        for (int i = 0; i < ((IntValue) bits).val / 8; i++) c.append(HEX[(h[i] >> 4) & 15]).append(HEX[h[i] & 15]);
        return new StringValue(c.toString());
    }
}

import java.security.MessageDigest;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC module override of Sha256!ShaCps.  The TLA+ definition stays the specification (MC_Ids
 * compares the two on their common prefixes); this only makes it fast.
 */
public class Sha256 {
    private static final Value[] HEX = new Value[16];

    static {
        for (int i = 0; i < 16; i++) {
            HEX[i] = IntValue.gen("0123456789abcdef".charAt(i));
        }
    }

    public static Value ShaCps(final Value b, final Value lo, final Value hi) throws Exception {
        final TupleValue t = (TupleValue) b.toTuple();
        final int l = ((IntValue) lo).val;
        final int n = Math.max(0, ((IntValue) hi).val - l);
        final byte[] data = new byte[n];
        for (int i = 0; i < n; i++) {
            data[i] = (byte) ((IntValue) t.elems[l + i]).val;
        }
        final byte[] d = MessageDigest.getInstance("SHA-256").digest(data);
        final Value[] out = new Value[64];
        for (int i = 0; i < 32; i++) {
            out[2 * i] = HEX[(d[i] >> 4) & 15];
            out[2 * i + 1] = HEX[d[i] & 15];
        }
        return new TupleValue(out);
    }
}

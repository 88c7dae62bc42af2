import java.util.Arrays;
import java.util.Map;
import java.util.TreeMap;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.SetEnumValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides of Fast!Range and Fast!Index. */
public class Fast {
    public static Value Range(Value seq) {
        Value[] e = ((TupleValue) seq.toTuple()).elems.clone();
        Arrays.sort(e, (a, b) -> a.compareTo(b));
        int n = 0;
        for (int i = 0; i < e.length; i++)
            if (n == 0 || !e[i].equals(e[n - 1])) e[n++] = e[i];
        return new SetEnumValue(Arrays.copyOf(e, n), true);
    }

    public static Value Index(Value seq) {
        Value[] e = ((TupleValue) seq.toTuple()).elems;
        TreeMap<Value, Integer> m = new TreeMap<>((a, b) -> a.compareTo(b));
        for (int i = 0; i < e.length; i++) m.putIfAbsent(e[i], i + 1);
        Value[] dom = new Value[m.size()], val = new Value[m.size()];
        int k = 0;
        for (Map.Entry<Value, Integer> x : m.entrySet()) {
            dom[k] = x.getKey();
            val[k++] = IntValue.gen(x.getValue());
        }
        return new FcnRcdValue(dom, val, true);
    }
}

import dev.brunsli.wrapper.Codec;
import java.io.BufferedInputStream;
import java.io.BufferedOutputStream;
import java.io.DataInputStream;
import java.io.DataOutputStream;
import java.io.IOException;
import java.nio.ByteBuffer;
import java.util.Arrays;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.atomic.AtomicInteger;

/** Answers batches of requests on the standard streams. */
public class Driver {
  static final int OK = 0, IO = 1, ILLEGAL = 2, OTHER = 3, CHANGED = 4;

  static class Request {
    int op, way;
    byte[] data, out;
    int status;
    String what = "";

    /** The result of every round must be that of the first one. */
    void run(int rounds) {
      for (int k = 0; k < rounds; k++) {
        byte[] firstOut = out;
        int firstStatus = status;
        out = null;
        status = OK;
        once();
        if (k > 0 && (status != firstStatus || !Arrays.equals(out, firstOut))) {
          what = "round " + k + " is different: " + what;
          status = OTHER;
          return;
        }
      }
    }

    void once() {
      byte[] copy = data.clone();
      try {
        switch (way) {
          case 0: // array
            out = op == 0 ? Codec.encode(data) : Codec.decode(data);
            break;
          default:
            ByteBuffer b = make();
            out = op == 0 ? Codec.encode(b) : Codec.decode(b);
            // The buffer stays as it was.
            if (way != 5) {
              ByteBuffer again = b.duplicate();
              again.clear();
              byte[] now = new byte[again.remaining()];
              again.get(now);
              if (!Arrays.equals(now, copy)) {
                status = CHANGED;
                what = "input buffer modified";
                return;
              }
            }
        }
        status = out == null ? OTHER : OK;
        if (out == null) what = "null result";
      } catch (IOException e) {
        status = IO;
      } catch (IllegalArgumentException e) {
        status = ILLEGAL;
      } catch (Throwable e) {
        status = OTHER;
        what = e.toString();
      }
      if (!Arrays.equals(copy, data)) {
        status = CHANGED;
        what = "input array modified";
      }
    }

    ByteBuffer make() {
      ByteBuffer b;
      switch (way) {
        case 1: // position at the start
          b = ByteBuffer.allocateDirect(data.length);
          b.put(data);
          b.rewind();
          return b;
        case 2: // position at the end
          b = ByteBuffer.allocateDirect(data.length);
          b.put(data);
          return b;
        case 3: // slice of a bigger one
          b = ByteBuffer.allocateDirect(data.length + 24);
          b.put(new byte[11]);
          b.put(data);
          b.put(new byte[13]);
          b.position(11);
          b.limit(11 + data.length);
          return b.slice();
        case 4: // read-only
          b = ByteBuffer.allocateDirect(data.length);
          b.put(data);
          b.rewind();
          return b.asReadOnlyBuffer();
        default: // not direct
          return ByteBuffer.wrap(data);
      }
    }
  }

  public static void main(String[] args) throws Exception {
    System.load(args[0]);
    DataOutputStream out = new DataOutputStream(new BufferedOutputStream(System.out, 1 << 16));
    DataInputStream in = new DataInputStream(new BufferedInputStream(System.in, 1 << 16));
    // The protocol uses the standard output; nothing else may.
    System.setOut(System.err);
    while (true) {
      int count = in.read();
      if (count < 0) return;
      int threads = in.read();
      int rounds = in.read();
      Request[] r = new Request[count];
      for (int i = 0; i < count; i++) {
        r[i] = new Request();
        r[i].op = in.read();
        r[i].way = in.read();
        r[i].data = new byte[in.readInt()];
        in.readFully(r[i].data);
      }
      if (threads <= 1) {
        for (Request x : r) x.run(rounds);
      } else {
        AtomicInteger next = new AtomicInteger();
        CyclicBarrier start = new CyclicBarrier(threads);
        Thread[] t = new Thread[threads];
        for (int k = 0; k < threads; k++) {
          t[k] = new Thread(() -> {
            try {
              start.await();
            } catch (Exception e) {
              throw new IllegalStateException(e);
            }
            for (int i; (i = next.getAndIncrement()) < r.length; ) r[i].run(rounds);
          });
          t[k].start();
        }
        for (Thread x : t) x.join();
      }
      for (Request x : r) {
        out.writeByte(x.status);
        byte[] res = x.status == OK ? x.out : x.what.getBytes("UTF-8");
        out.writeInt(res.length);
        out.write(res);
      }
      out.flush();
    }
  }
}

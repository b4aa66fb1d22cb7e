public class M {
  static class Foo { static Object x; static { for (int i=0;i<8;++i){ byte[][] g = new byte[64][]; for(int j=0;j<64;++j) g[j]=new byte[4000]; System.gc(); } x = "hello"; } }
  static native Object get(Class c, String cls);
  public static void main(String[] a) throws Exception {
    System.load(a[0]);
    System.out.println(get(Foo.class, "M$Foo"));
  }
}

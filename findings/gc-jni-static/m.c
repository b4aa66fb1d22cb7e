#include <jni.h>
JNIEXPORT jobject JNICALL Java_M_get(JNIEnv* e, jclass m, jclass c, jstring s){
 jclass k=c;
 jfieldID f=(*e)->GetStaticFieldID(e,k,"x","Ljava/lang/Object;");
 return (*e)->GetStaticObjectField(e,k,f);
}

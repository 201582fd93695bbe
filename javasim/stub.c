// Stand-in for the Java native library: every native method goes up to Sim, which decides its outcome.
#include <jni.h>
static jclass sim;
static jmethodID m_new, m_destroy, m_compute, m_commit, m_verify, m_recover;
#define N(r, n) JNIEXPORT r JNICALL Java_ethereum_cryptography_LibEthKZG_##n
#define BB "[[B"
JNIEXPORT jint JNICALL JNI_OnLoad(JavaVM *vm, void *x) {
  JNIEnv *e;
  if ((*vm)->GetEnv(vm, (void **)&e, JNI_VERSION_1_8) != JNI_OK) return -1;
  jclass c = (*e)->FindClass(e, "Sim");
  if (!c) return -1;
  sim = (*e)->NewGlobalRef(e, c);
  m_new = (*e)->GetStaticMethodID(e, c, "nNew", "(ZJ)J");
  m_destroy = (*e)->GetStaticMethodID(e, c, "nDestroy", "(J)V");
  m_compute = (*e)->GetStaticMethodID(e, c, "nCompute", "(J[B)Ljava/lang/Object;");
  m_commit = (*e)->GetStaticMethodID(e, c, "nCommit", "(J[B)[B");
  m_verify = (*e)->GetStaticMethodID(e, c, "nVerify", "(J" BB "[J" BB BB ")Z");
  m_recover = (*e)->GetStaticMethodID(e, c, "nRecover", "(J[J" BB ")Ljava/lang/Object;");
  jmethodID l = (*e)->GetStaticMethodID(e, c, "onLoad", "()V");
  if (!m_new || !m_destroy || !m_compute || !m_commit || !m_verify || !m_recover || !l) return -1;
  (*e)->CallStaticVoidMethod(e, c, l);
  return JNI_VERSION_1_8;
}
N(jlong, DASContextNew)(JNIEnv *e, jclass k, jboolean p, jlong n) { return (*e)->CallStaticLongMethod(e, sim, m_new, p, n); }
N(void, DASContextDestroy)(JNIEnv *e, jclass k, jlong c) { (*e)->CallStaticVoidMethod(e, sim, m_destroy, c); }
N(jobject, computeCellsAndKZGProofs)(JNIEnv *e, jclass k, jlong c, jobject b) { return (*e)->CallStaticObjectMethod(e, sim, m_compute, c, b); }
N(jobject, blobToKZGCommitment)(JNIEnv *e, jclass k, jlong c, jobject b) { return (*e)->CallStaticObjectMethod(e, sim, m_commit, c, b); }
N(jboolean, verifyCellKZGProofBatch)(JNIEnv *e, jclass k, jlong c, jobject ks, jobject ix, jobject cs, jobject ps) { return (*e)->CallStaticBooleanMethod(e, sim, m_verify, c, ks, ix, cs, ps); }
N(jobject, recoverCellsAndKZGProofs)(JNIEnv *e, jclass k, jlong c, jobject ix, jobject cs) { return (*e)->CallStaticObjectMethod(e, sim, m_recover, c, ix, cs); }

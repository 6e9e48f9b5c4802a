// Scheduling points for binaries whose scenarios run several threads: every basic block of the
// instrumented code (QCoro and the scenario, compiled with -fsanitize-coverage=trace-pc) and both
// sides of Qt's thread-safe entry points, which are wrapped here by symbol interposition.
#include "sim_p.h"

#include <QCoreApplication>
#include <QFutureInterface>
#include <QThread>

#include <dlfcn.h>

extern "C" void __sanitizer_cov_trace_pc() { sim::yieldPoint(nullptr); }

#define NEXT(mangled, ret, ...) \
    static auto real = reinterpret_cast<ret (*)(__VA_ARGS__)>(dlsym(RTLD_NEXT, mangled)); \
    struct Around { Around() { sim::yieldPoint("before"); } ~Around() { sim::yieldPoint("after"); } } around

bool QThread::isRunning() const {
    NEXT("_ZNK7QThread9isRunningEv", bool, const QThread *);
    return real(this);
}
bool QThread::isFinished() const {
    NEXT("_ZNK7QThread10isFinishedEv", bool, const QThread *);
    return real(this);
}
QMetaObject::Connection QObject::connectImpl(const QObject *s, void **sig, const QObject *r, void **slotPtr, QtPrivate::QSlotObjectBase *slot, Qt::ConnectionType type, const int *types, const QMetaObject *mo) {
    NEXT("_ZN7QObject11connectImplEPKS_PPvS1_S3_PN9QtPrivate15QSlotObjectBaseEN2Qt14ConnectionTypeEPKiPK11QMetaObject",
         QMetaObject::Connection, const QObject *, void **, const QObject *, void **, QtPrivate::QSlotObjectBase *, Qt::ConnectionType, const int *, const QMetaObject *);
    return real(s, sig, r, slotPtr, slot, type, types, mo);
}
bool QObject::disconnect(const QMetaObject::Connection &c) {
    NEXT("_ZN7QObject10disconnectERKN11QMetaObject10ConnectionE", bool, const QMetaObject::Connection &);
    return real(c);
}
void QObject::moveToThread(QThread *t) {
    NEXT("_ZN7QObject12moveToThreadEP7QThread", void, QObject *, QThread *);
    real(this, t);
}
void QObject::deleteLater() {
    NEXT("_ZN7QObject11deleteLaterEv", void, QObject *);
    real(this);
}
void QCoreApplication::postEvent(QObject *r, QEvent *e, int p) {
    NEXT("_ZN16QCoreApplication9postEventEP7QObjectP6QEventi", void, QObject *, QEvent *, int);
    real(r, e, p);
}
bool QMetaObject::invokeMethodImpl(QObject *o, QtPrivate::QSlotObjectBase *s, Qt::ConnectionType t, void *ret) {
    NEXT("_ZN11QMetaObject16invokeMethodImplEP7QObjectPN9QtPrivate15QSlotObjectBaseEN2Qt14ConnectionTypeEPv", bool, QObject *, QtPrivate::QSlotObjectBase *, Qt::ConnectionType, void *);
    return real(o, s, t, ret);
}
bool QFutureInterfaceBase::queryState(State st) const {
    NEXT("_ZNK20QFutureInterfaceBase10queryStateENS_5StateE", bool, const QFutureInterfaceBase *, State);
    return real(this, st);
}
bool QFutureInterfaceBase::isFinished() const {
    NEXT("_ZNK20QFutureInterfaceBase10isFinishedEv", bool, const QFutureInterfaceBase *);
    return real(this);
}
bool QFutureInterfaceBase::isCanceled() const {
    NEXT("_ZNK20QFutureInterfaceBase10isCanceledEv", bool, const QFutureInterfaceBase *);
    return real(this);
}

// C26: image requests finish exactly once with the produced image.
#include "qcoroimageprovider.h"
#include "jobs.h"
#include "qcorotimer.h"
#include "threadgate.h"

#include <QCoreApplication>
#include <QGuiApplication>
#include <QImage>
#include <QQmlEngine>
#include <QQuickImageProvider>
#include <QThread>

#include <private/qobject_p.h>
#include <private/qquickimageprovider_p.h>
#include <private/qquickpixmapcache_p.h>

#include <dlfcn.h>

using namespace sim;

// The QML engine starts threads of its own: they need a simulated event dispatcher.
void QThread::start(Priority p) {
    static auto real = reinterpret_cast<void (*)(QThread *, Priority)>(dlsym(RTLD_NEXT, "_ZN7QThread5startENS_8PriorityE"));
    if (!eventDispatcher()) setEventDispatcher(newDispatcher());
    real(this, p);
}

namespace {

// Textures need a platform; this one has no display, input or threads.
const bool gui = [] {
    sim::createApplication = [](int &argc, char **argv) -> QObject * {
        qputenv("QT_QPA_PLATFORM", "minimal");
        return new QGuiApplication(argc, argv);
    };
    return true;
}();

struct Empty : std::exception { const char *what() const noexcept override { return ""; } };

struct Request {
    int id = 0;
    QSize size;
    int end = 0;           // 0: image, 1: null image, 2: exception, 3: another kind of exception, 4: exception without text
    int started = 0;       // of the coroutine
    bool ended = false;
    int notified = 0;
    bool gone = false;     // the response or its consumer
    bool remote = false;   // runs on another thread
    QPointer<QQuickImageResponse> response;
    int alpha = 255;
    QString name;          // what the request asks for
    QSize asked;           // the size that it asks for
    QRgb colour() const { return qPremultiply(qRgba(id * 37 % 256, id * 91 % 256, 7 + id, alpha)); }
    QImage image() const {
        QImage i(size, alpha == 255 ? QImage::Format_RGB32 : QImage::Format_ARGB32_Premultiplied);
        for (int y = 0; y < i.height(); ++y) // every pixel is its own
            for (int x = 0; x < i.width(); ++x) reinterpret_cast<QRgb *>(i.scanLine(y))[x] = alpha == 255 ? colour() ^ (x * 3 + y) : qPremultiply(qRgba(x, id % 256, y, (alpha + x + y) % 256));
        return i;
    }
};
std::vector<Request *> requests;
int frames = 0; // of coroutines that have not been destroyed

bool same(const QImage &a, const Request *r) { return a.size() == r->size && a.convertToFormat(QImage::Format_ARGB32_Premultiplied) == r->image().convertToFormat(QImage::Format_ARGB32_Premultiplied); }

struct Provider : QCoro::ImageProvider {
    QCoro::Task<QImage> asyncRequestImage(const QString &id, const QSize &size) override {
        Request *r = nullptr;
        for (auto *x : requests) if (x->name == id) r = x;
        SIM_CHECK(r, "wrong-id", "the coroutine was started for something else than what was requested");
        SIM_CHECK(size == r->asked, "wrong-size", "the size requested changed on the way");
        return paint(r);
    }
    static QCoro::Task<QImage> paint(Request *r) {
        SIM_CHECK(!r->started++, "started-twice", "the coroutine of a request was started %d times", r->started);
        trace("request %d is painted", r->id);
        Tracked local(&frames);
        for (int n = int(choose(3)); n > 0; --n) {
            if (QThread::currentThread() != qApp->thread()) co_await ThreadGate{int(choose(20))};
            else if (chance(50)) co_await Gate(delay(30 * ms));
            else co_await QCoro::sleepFor(std::chrono::milliseconds(choose(20)));
        }
        struct Done { Request *r; ~Done() { r->ended = true; trace("request %d is ready", r->id); } } done{r};
        if (r->end == 2) throw Err(r->id);
        if (r->end == 3) throw OtherErr{r->id};
        if (r->end == 4) throw Empty();
        if (r->end == 1) co_return QImage();
        co_return r->image();
    }
};

Request *newRequest() {
    auto *r = new Request;
    r->id = int(requests.size());
    r->size = QSize(1 + int(choose(3)), 1 + int(choose(3)));
    if (chance(40)) r->alpha = int(choose(255));
    if (chance(3)) r->size = QSize(1 + int(choose(5000)), 1 + int(choose(3)));
    r->end = chance(65) ? 0 : 1 + int(choose(4));
    // with names that suit an URL, or any text
    r->name = pick<QString>({QString(), QStringLiteral(" dir/a b"), QStringLiteral("x?q=1&r#"), QStringLiteral("%20\u00e9//")}) + QString::number(r->id) + pick<QString>({QString(), QStringLiteral(" "), QStringLiteral("?")});
    r->asked = chance(60) ? r->size : pick<QSize>({QSize(), QSize(0, 0), QSize(-1, 40), QSize(40, 0), QSize(100000, 7)});
    requests.push_back(r);
    return r;
}

// Uses a response like the image reader of Qt Quick does.
struct Consumer : QObject {
    QQuickAsyncImageProvider *provider;
    Request *r;
    Consumer(QQuickAsyncImageProvider *p, Request *request) : provider(p), r(request) {}
    void begin() {
        r->response = provider->requestImageResponse(r->name, r->asked);
        SIM_CHECK(r->response, "no-response", "there is no response");
        auto *response = r->response.data();
        connect(response, &QQuickImageResponse::finished, response, [this, response] {
            SIM_CHECK(QThread::currentThread() == response->thread(), "wrong-thread", "a response finished on another thread");
            notified(response);
        });
        if (static_cast<QQuickImageResponsePrivate *>(QObjectPrivate::get(response))->finished.loadAcquire()) {
            probe("finished-synchronously");
            SIM_CHECK(r->ended, "early", "a response finished before its coroutine");
            notified(response);
        }
        if (r->gone) return;
        switch (choose(6)) {
        case 0: case 1: {
            auto *t = new QTimer(response);
            t->setSingleShot(true);
            connect(t, &QTimer::timeout, response, [this, response] {
                probe(r->ended ? "destroyed-late" : "destroyed-pending");
                trace("the response of %d is destroyed", r->id);
                r->gone = true;
                delete response;
            });
            t->start(int(choose(50)));
            break;
        }
        case 2: probe("cancelled"); response->cancel(); break;
        default: break;
        }
    }
    void notified(QQuickImageResponse *response) {
        trace("request %d finished", r->id);
        SIM_CHECK(!r->gone, "after-destruction", "a destroyed response finished");
        SIM_CHECK(r->ended, "early", "a response finished before its coroutine");
        SIM_CHECK(++r->notified == 1, "finished-twice", "a response finished %d times", r->notified);
        std::unique_ptr<QQuickTextureFactory> f(response->textureFactory());
        if (r->end == 0) {
            SIM_CHECK(response->errorString().isEmpty(), "wrong-result", "a successful request has the error %s", qPrintable(response->errorString()));
            SIM_CHECK(f && same(f->image(), r), "wrong-result", "request %d exposes another image or none", r->id);
            probe("image");
        } else {
            SIM_CHECK(!f || f->image().isNull(), "wrong-result", "a request that failed exposes an image");
            probe("failure");
        }
        switch (choose(4)) {
        case 0: r->gone = true; response->deleteLater(); break;
        case 1: if (chance(30)) { r->gone = true; probe("destroyed-when-finished"); delete response; } break;
        default: break;
        }
    }
    void settled() {
        if (!r->response && !r->gone) return;
        if (r->ended && !r->gone) SIM_CHECK(r->notified == 1, "not-finished", "request %d never finished although its coroutine did", r->id);
    }
};
std::vector<Consumer *> consumers;

// The real consumer.
struct Pixmap : QObject {
    Q_OBJECT
public:
    QQuickPixmap *pixmap = new QQuickPixmap;
    Request *r;
    QQmlEngine *qml;
    explicit Pixmap(QQmlEngine *e, Request *request) : r(request), qml(e) {
        r->name = QString::number(r->id);
        r->asked = r->size;
    }
    void begin() {
        QUrl url(QStringLiteral("image://sim/%1").arg(r->id));
        pixmap->load(qml, url, QRect(), r->size, QQuickPixmap::Options(QQuickPixmap::Asynchronous));
        if (pixmap->isLoading()) pixmap->connectFinished(this, SLOT(done()));
        else done();
    }
    void check() {
        if (r->end == 0) SIM_CHECK(pixmap->isReady() && same(pixmap->image(), r), "wrong-result", "request %d exposes another image or none: %s", r->id, qPrintable(pixmap->error()));
        else SIM_CHECK(!pixmap->isLoading() && pixmap->image().isNull(), "wrong-result", "a request that failed exposes an image");
    }
    void drop() {
        if (r->gone) return;
        r->gone = true;
        probe(r->ended ? "pixmap-dropped-late" : "pixmap-dropped-pending");
        pixmap->clear(this);
        delete pixmap;
        pixmap = nullptr;
    }
public Q_SLOTS:
    void done() {
        trace("pixmap %d: status %d", r->id, int(pixmap->status()));
        SIM_CHECK(r->ended, "early", "an image was reported before its coroutine finished");
        SIM_CHECK(++r->notified == 1, "finished-twice", "an image was reported %d times", r->notified);
        check();
        probe("pixmap");
    }
};
std::vector<Pixmap *> pixmaps;

} // namespace

SIM_SCENARIO("C26", image_responses, 3) {
    swarm();
    swarmThreads();
    auto *provider = new Provider;
    auto *reader = chance(40) ? eventThread("reader") : nullptr;
    onIdle([] { for (auto *c : consumers) c->settled(); });
    for (int n = 1 + int(choose(5)); n > 0; --n) {
        auto *c = new Consumer(provider, newRequest());
        consumers.push_back(c);
        const bool remote = reader && chance(70);
        if (remote) c->moveToThread(reader);
        at(delay(40 * ms), [=] {
            if (remote) { probe("remote"); onThread(reader, [c] { c->begin(); }); }
            else c->begin();
        }, "request");
    }
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *c : consumers) {
        c->settled();
        SIM_CHECK(c->r->started == 1 && c->r->ended, "not-run", "the coroutine of a request did not run to its end");
    }
    SIM_CHECK(frames == 0, "leak", "%d coroutines of finished requests were not destroyed", frames);
}

SIM_SCENARIO("C26", image_pixmaps, 1) {
    swarm();
    swarmThreads();
    auto *qml = new QQmlEngine;
    qml->addImageProvider(QStringLiteral("sim"), new Provider);
    onIdle([] {
        for (auto *p : pixmaps) if (p->r->ended && !p->r->gone) { SIM_CHECK(p->r->notified == 1, "not-finished", "image %d is never reported although its coroutine ended", p->r->id); p->check(); }
    });
    for (int n = 1 + int(choose(4)); n > 0; --n) {
        auto *p = new Pixmap(qml, newRequest());
        pixmaps.push_back(p);
        at(delay(40 * ms), [p] { if (!p->r->gone) p->begin(); }, "load");
        if (chance(25)) at(delay(80 * ms), [p] { if (p->r->notified || p->r->started) p->drop(); }, "drop");
    }
    const bool early = chance(25);
    if (early) at(delay(80 * ms), [qml] {
        probe("engine-destroyed");
        for (auto *p : pixmaps) p->drop();
        delete qml;
    }, "engine");
    SIM_CHECK(run(), "not-idle", "the program never becomes idle");
    for (auto *p : pixmaps) {
        if (p->r->gone) continue;
        SIM_CHECK(p->r->notified == 1, "not-finished", "image %d was never reported", p->r->id);
        p->check();
    }
}

#include "c26_image.moc"

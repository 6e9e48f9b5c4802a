#pragma once
#include "sim_p.h"
#include <QAbstractEventDispatcher>
#include <QSocketNotifier>
#include <QList>

namespace sim {
constexpr int userInputFd = 20001; // user input arrives here
// Readiness of a simulated file descriptor; installed by the fake network.
extern bool (*fdReady)(int fd, int type);

class SimDispatcher : public QAbstractEventDispatcher {
public:
    explicit SimDispatcher(bool home, QObject *parent = nullptr);
    ~SimDispatcher() override;
    bool processEvents(QEventLoop::ProcessEventsFlags flags) override;
    void registerSocketNotifier(QSocketNotifier *n) override;
    void unregisterSocketNotifier(QSocketNotifier *n) override;
    void registerTimer(int id, qint64 interval, Qt::TimerType type, QObject *obj) override;
    bool unregisterTimer(int id) override;
    bool unregisterTimers(QObject *obj) override;
    QList<TimerInfo> registeredTimers(QObject *obj) const override;
    int remainingTime(int id) override;
    void wakeUp() override;
    void interrupt() override;
    void closingDown() override;

    bool hasWork(QEventLoop::ProcessEventsFlags flags) const;
    int64_t nextDeadline() const;

private:
    struct Timer { int id; int64_t interval; int64_t base; int64_t deadline; uint64_t seq; Qt::TimerType type; QObject *obj; int active; };
    bool postedPending() const;
    const Timer *dueTimer() const;
    QList<QSocketNotifier *> ready(QEventLoop::ProcessEventsFlags flags) const;
    std::vector<Timer> mTimers;
    QList<QSocketNotifier *> mNotifiers;
    bool mHome; // environment events run here
    friend void runAwayFromMain(void (*)());
    bool mInterrupt = false;
    bool mWake = false;
};
} // namespace sim

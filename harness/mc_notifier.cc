// C04 (second part): wavefront_notifier registration against notification.
#include <mc.h>
#include <usml/wavegen/wavefront_notifier.h>

#include <atomic>
#include <memory>
#include <thread>

using namespace usml::wavegen;
using namespace usml::eigenrays;
using namespace usml::eigenverbs;

struct ear : public wavefront_listener {
    std::atomic<int> n{0};
    wavefront_notifier* drop_from{nullptr};
    void update_wavefront_data(const usml::sensors::sensor_model* s, eigenray_collection::csptr r, eigenverb_collection::csptr v) override {
        mc::check(s == nullptr && v != nullptr, "arguments not passed through");
        ++n;
        if (drop_from) drop_from->remove_wavefront_listener(this);
    }
};
MC_SCENARIO(wave, "wavefront_notifier: registration against notification", 8, 40) {
    wavefront_notifier n;
    eigenverb_collection::csptr verbs(new eigenverb_collection(0));
    auto a = std::make_unique<ear>(), b = std::make_unique<ear>();
    n.add_wavefront_listener(a.get());
    n.add_wavefront_listener(a.get());
    std::thread t([&] { n.notify_wavefront_listeners(nullptr, nullptr, verbs); });
    n.add_wavefront_listener(b.get());
    n.remove_wavefront_listener(a.get());
    mc::check(a->n <= 1, "notified twice");
    mc::observe("a%d", (int)a->n);
    a.reset();   // safe once remove has returned
    t.join();
    mc::check(b->n <= 1, "notified twice");
    mc::observe("b%d", (int)b->n);
    int k = b->n;
    n.notify_wavefront_listeners(nullptr, nullptr, verbs);
    mc::check(b->n == k + 1, "registered listener not notified exactly once");
}
MC_SCENARIO(self, "listener removes itself during the callback", 8, 40) {
    wavefront_notifier n;
    eigenverb_collection::csptr verbs(new eigenverb_collection(0));
    ear a, b;
    a.drop_from = &n;
    n.add_wavefront_listener(&a);
    n.add_wavefront_listener(&b);
    std::thread t([&] { n.notify_wavefront_listeners(nullptr, nullptr, verbs); });
    n.notify_wavefront_listeners(nullptr, nullptr, verbs);
    t.join();
    mc::check(a.n >= 1 && a.n <= 2 && b.n == 2, "a notified %d, b %d", (int)a.n, (int)b.n);
    n.notify_wavefront_listeners(nullptr, nullptr, verbs);
    mc::check(a.n <= 2 && b.n == 3, "removed listener notified, or remaining one not");
    mc::observe("%d", (int)a.n);
}

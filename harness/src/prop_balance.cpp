// B01: closure of the water balance.  B02: physical bounds of states and fluxes.
#include <cmath>

#include "balance.h"

static void explore(Ctx& ctx, bool bounds) {
    auto cfgs = balanceConfigs(ctx.thorough());
    int K = kAlphabet.size();
    int L = ctx.quick() ? 4 : 5;
    for (auto& c0 : cfgs) {
        Config c = c0;
        c.spec.steps = L;
        std::map<std::string, double> caps;
        for (auto& st : c.spec.o.stores)
            if (st.cap > 0) caps[st.name + ":water_content"] = st.cap;
        for (auto& p : c.spec.o.params)
            if (p.name == "capacity" && (p.comp == "slow_reservoir" || p.comp == "soil_moisture" || p.comp == "production_store")) caps[p.comp + ":water_content"] = p.value;
        sequences(K, L, [&](const std::vector<int>& seq) {
            ctx.run(c.name + "/" + seqStr(seq), [&] {
                auto f = unitForcing(c.spec, seq);
                Sim sim(c.spec);
                if (!prepare(sim, c, f) || !sim.run()) {
                    ctx.fail("rejected", "valid configuration or forcing rejected: " + sim.error);
                    return;
                }
                Rec r = record(*sim.m);
                if (getenv("HB_DUMP")) dumpRec(r);
                double A = r.areas.sum(), in = 0, out = 0, et = 0, ice0 = 0;
                if (c.initialIce > 0)
                    for (size_t u = 0; u < c.spec.units.size(); ++u)
                        for (auto& cv : c.spec.units[u].covers)
                            if (cv.type == "glacier") ice0 += c.initialIce * cv.frac * c.spec.units[u].area / A;
                if (ctx.check(r.steps == L, "steps", [&] { return fmt("%d steps recorded instead of %d", r.steps, L); }) == false)
                    return;
                const axd* q = r.subv("outlet");
                double iceMelt = 0;
                for (int t = 0; t < L; ++t) {
                    ctx.state(hashRec(r, t));
                    ++ctx.transitions;
                    if (!bounds) {
                        for (size_t u = 0; u < c.spec.units.size(); ++u) in += corrected(c.spec, f[u][t]) * r.areas[u] / A;
                        iceMelt += iceInput(r, c, t) - iceGain(r, c, t);
                        out += (*q)[t];
                        for (size_t i = 0; i < r.hu.size(); ++i) {
                            if (!isEt(r.huLabels[i])) continue;
                            int fr = coverOf(r, r.huLabels[i]);
                            for (int u = 0; u < r.hu[i].cols(); ++u) {
                                double v = r.hu[i](t, u);
                                if (std::isnan(v)) continue;
                                if (fr >= 0) v *= r.fr[fr](t, u);
                                et += v * r.areas[u] / A;
                            }
                        }
                        double st = storageOf(r, ":water_content", t) + storageOf(r, ":snow_content", t) +
                                    storageOf(r, ":ice_content", t) - ice0;
                        double res = in + iceMelt - out - et - st;
                        if (std::isnan(res) || std::fabs(res) > 1e-6 * (1 + in + std::fabs(iceMelt))) {
                            ctx.fail("unbalanced", fmt("after step %d: precipitation %.9g + ice melt %.9g - discharge %.9g - evaporation %.9g - storage change %.9g = %.3g",
                                                       t + 1, in, iceMelt, out, et, st, res));
                            return;
                        }
                        continue;
                    }
                    // ---- bounds
                    for (size_t i = 0; i < r.sub.size(); ++i) {
                        double v = r.sub[i][t];
                        if (!std::isfinite(v) || v < -1e-7) {
                            ctx.fail("negative", fmt("%s = %.9g at step %d", r.subLabels[i].c_str(), v, t + 1));
                            return;
                        }
                    }
                    double dt = stepDays(c.spec);
                    for (size_t i = 0; i < r.hu.size(); ++i) {
                        const std::string& l = r.huLabels[i];
                        bool gr6 = startsWith(c.spec.o.kind, "gr6") && startsWith(l, "uh_input:") && !endsWith(l, ":output");
                        for (int u = 0; u < r.hu[i].cols(); ++u) {
                            double v = r.hu[i](t, u);
                            bool absent = true;
                            int fr = coverOf(r, l);
                            if (fr < 0) absent = false;
                            else
                                for (auto& cv : c.spec.units[u].covers) absent &= cv.name != r.frLabels[fr];
                            if (absent) continue;
                            if (!std::isfinite(v) || (v < -1e-7 && !gr6)) {
                                ctx.fail("negative", fmt("%s = %.9g in unit %d at step %d", l.c_str(), v, u, t + 1));
                                return;
                            }
                            auto cap = caps.find(l);
                            if (cap != caps.end() && v > cap->second + 1e-6) {
                                ctx.fail("capacity", fmt("%s = %.9g exceeds its capacity %g at step %d", l.c_str(), v, cap->second, t + 1));
                                return;
                            }
                            if (isEt(l) && !(endsWith(l, ":sublimation:output") && c.spec.o.sublimation == "sublimation:constant")) {
                                double pet = f[u][t].e * dt;
                                if (v > pet + 1e-6 && c.spec.solver != "exponential_euler") {
                                    ctx.fail("et", fmt("%s = %.9g exceeds the potential %g at step %d", l.c_str(), v, pet, t + 1));
                                    return;
                                }
                            }
                        }
                    }
                    // evaporation from the soil and the interception of the same unit share one demand (GR models)
                    if (startsWith(c.spec.o.kind, "gr")) {
                        for (size_t u = 0; u < c.spec.units.size(); ++u) {
                            double s = 0;
                            for (size_t i = 0; i < r.hu.size(); ++i)
                                if (isEt(r.huLabels[i])) {
                                    int fr = coverOf(r, r.huLabels[i]);
                                    double v = r.hu[i](t, u);
                                    if (std::isnan(v)) continue;
                                    if (fr >= 0) v *= r.fr[fr](t, u);
                                    s += v;
                                }
                            if (s > f[u][t].e * dt + 1e-6) {
                                ctx.fail("et", fmt("total evaporation %.9g exceeds the potential %g at step %d", s, f[u][t].e, t + 1));
                                return;
                            }
                        }
                    }
                }
                if (!bounds) {
                    // the model's own reported totals must tell the same story
                    double rep = sim.m->GetTotalOutletDischarge() + sim.m->GetTotalET() + sim.m->GetTotalWaterStorageChanges() +
                                 sim.m->GetTotalSnowStorageChanges() + sim.m->GetTotalGlacierStorageChanges();
                    if (!close(rep, in + iceMelt, 1e-6, 1e-6))
                        ctx.fail("reported", fmt("reported totals sum to %.9g, inputs are %.9g", rep, in + iceMelt));
                }
                ++ctx.validated;
            });
        });
        ctx.dims["configurations"] += ctx.shard == 0;
    }
}

PROPERTY(B01) { explore(ctx, false); }
PROPERTY(B02) { explore(ctx, true); }

//! C11: failing handlers
use super::c07::{mesh_case, mesh_cfg};
use crate::codec;
use crate::core::*;
use crate::fix::*;
use crate::mesh::*;
use crate::rng::*;
use crate::sim::*;
use crate::{both, boxed, ensure};
use bromine::error::Error;
use bromine::error_event::ErrorEventData;
use bromine::event::Event;
use bromine::prelude::*;
use std::sync::{Arc, Mutex};

pub fn fams() -> Vec<Fam> {
    vec![
        fam("faults", 800, 15000, boxed!(faults)),
        fam("mesh", 300, 6000, boxed!(mesh11)),
        fam("callers", 400, 6000, boxed!(callers)),
        fam("isolation", 200, 3000, boxed!(isolation)),
        fam("stamina", 24, 200, boxed!(stamina)),
    ]
}

both!(faults, faults_);
async fn faults_<T: Tp>(sc: Arc<Sc>) -> R {
    routes::<T>(sc, Facet::Faults).await
}

both!(mesh11, mesh11_);
async fn mesh11_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let c = mesh_cfg(&mut r, true);
    let m = mesh(&net, &mut r, &c).await?;
    check_callers(&m)?;
    check_runs(&m)?;
    mesh_case(&sc, T::NAME, &c, &m);
    Ok(())
}

/// Ways to fail; returns the error and texts of which the message has to contain one
fn failure(k: u64, r: &mut Rng) -> (Error, Vec<String>) {
    let m = format!("broken {:x}", r.next());
    match k % 7 {
        0 => (Error::Message(m.clone()), vec![m]),
        1 => {
            let big = m.repeat(1 + r.idx(4000));
            (Error::Message(big.clone()), vec![big])
        }
        2 => (std::io::Error::new(std::io::ErrorKind::Other, m.clone()).into(), vec![m]),
        3 => (Error::Timeout, vec!["Timeout".into(), "timed out".into()]),
        4 => (ErrorEventData { code: 404, message: m.clone() }.into(), vec![m]),
        5 => (Error::CorruptedEvent, vec!["CorruptedEvent".into(), "corrupted".into()]),
        _ => (Error::BuildError(m.clone()), vec![m]),
    }
}

type Slot = Arc<Mutex<Option<(Error, usize)>>>;
fn failing_handler(slot: Slot) -> impl for<'a> Fn(&'a Ctx, Event) -> HFut<'a> + Send + Sync + Clone + 'static {
    move |ctx: &Ctx, _e: Event| {
        let ctx = ctx.clone();
        let x = slot.lock().unwrap().take();
        Box::pin(async move {
            let (e, emits) = x.unwrap();
            for i in 0..emits {
                ctx.emit("part", bp(vec![i as u8])).await?;
            }
            if emits % 2 == 1 {
                sleep(ms(3)).await;
            }
            Err(e)
        }) as HFut
    }
}

fn boom() -> IPCResult<Response> {
    std::panic::panic_any(Intended)
}

both!(callers, callers_);
/// Waiting, streaming and careless callers on either side, every kind of error
async fn callers_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let slot: Slot = Default::default();
    let failing = failing_handler(slot.clone());
    let errs: Arc<Mutex<Vec<(u16, String, Option<u64>)>>> = Default::default();
    let e2 = errs.clone();
    let own_handler = r.chance(700);
    let mut cb = net.builder();
    if own_handler {
        cb = cb.on("error", move |_: &Ctx, e: Event| {
            let e2 = e2.clone();
            Box::pin(async move {
                let d = e.payload::<ErrorEventData>()?;
                e2.lock().unwrap().push((d.code, d.message, e.reference_id()));
                Ok(Response::empty())
            }) as HFut
        });
    }
    let _srv = net.serve(net.builder().on("f", failing.clone()).namespace("n").on("f", failing).build()).await;
    let ctx = net.client(cb, &LinkCfg::random(&mut r, true)).await?;
    let mut hist = vec![];
    for i in 0..r.range(2, 8) {
        let (err, texts) = failure(r.next(), &mut r);
        let emits = r.idx(4);
        *slot.lock().unwrap() = Some((err, emits));
        let contains = |m: &str| texts.iter().any(|t| m.contains(t.as_str()));
        let e = if r.chance(300) { ctx.emit_to("n", "f", bp(vec![])) } else { ctx.emit("f", bp(vec![])) };
        let how = r.below(3);
        hist.push((how, emits, texts[0].len()));
        match how {
            0 => {
                let res = e.await_reply().with_timeout(secs(3000)).await;
                match res {
                    Ok(ev) => ensure!(emits > 0 && evt_ty(ev.event_type()) == codec::RESP, "no-error", "the caller of a failed handler got {:?}", ev),
                    Err(Error::ErrorEvent(d)) => {
                        ensure!(emits == 0, "too-early", "the error came before what the handler had emitted");
                        ensure!(d.code == 500, "code", "the error response has the code {}", d.code);
                        ensure!(contains(&d.message), "message", "the message '{}' contains none of {:?}", &d.message.chars().take(200).collect::<String>(), texts[0].chars().take(50).collect::<String>());
                    }
                    Err(e) => return viol("no-error", format!("the caller of a failed handler got {:?}", e)),
                }
                net.settle(secs(5)).await;
                // what was not the awaited reply may or may not reach the handler
                errs.lock().unwrap().clear();
            }
            1 => {
                let mut s = match e.stream_replies().with_timeout(secs(3000)).await {
                    Ok(s) => s,
                    Err(e) => return viol("no-error", format!("streaming failed: {:?}", e)),
                };
                let mut items = vec![];
                while let Some(x) = next(&mut s).await {
                    match x {
                        Ok(e) => items.push((evt_ty(e.event_type()), e.data_raw().to_vec())),
                        Err(e) => return viol("stream", format!("the stream of a failed handler has the item {:?}", e)),
                    }
                    ensure!(items.len() < 50, "stream", "the stream does not end");
                }
                ensure!(items.len() == emits + 1, "stream", "{} items instead of {} and the error", items.len(), emits);
                let (ty, d) = items.last().unwrap();
                match parse_err(d) {
                    Some((code, m)) => {
                        ensure!(*ty == codec::ERR && code == 500, "code", "the last item has type {} and code {}", ty, code);
                        ensure!(contains(&m), "message", "the message '{}' does not contain the error", m.chars().take(200).collect::<String>());
                    }
                    None => return viol("stream", format!("the last item of a failed handler has type {} and no error payload", ty)),
                }
                net.settle(secs(5)).await;
                ensure!(errs.lock().unwrap().is_empty(), "error-handler", "the error handler ran although a stream got the error");
            }
            _ => {
                let id = match e.await {
                    Ok(id) => id,
                    Err(e) => return viol("emit", format!("{:?}", e)),
                };
                net.settle(secs(5)).await;
                let got = std::mem::take(&mut *errs.lock().unwrap());
                if own_handler {
                    ensure!(got.len() == 1, "error-handler", "the error handler ran {} times", got.len());
                    ensure!(got[0].0 == 500 && contains(&got[0].1), "message", "the error handler got {} '{}'", got[0].0, got[0].1.chars().take(200).collect::<String>());
                    ensure!(got[0].2 == Some(id), "reference", "the error references {:?} instead of {:x}", got[0].2, id);
                }
            }
        }
        let _ = i;
    }
    sc.count("failures", hist.len() as u64);
    sc.case(Some(mix(hash_bytes(format!("{:?}", hist).as_bytes()), own_handler as u64)), || format!("{}: (how, emits, message length) {:?}, own error handler {}", T::NAME, hist, own_handler));
    Ok(())
}

both!(isolation, isolation_);
/// Panics and failures on either side, in the callback itself, before and after waiting, with the data lock held
async fn isolation_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let slow: Arc<Mutex<Vec<u64>>> = Default::default();
    let mk = |b: IPCBuilder<T::L>| {
        let sl = slow.clone();
        b.on("now", |_: &Ctx, _: Event| -> HFut { std::panic::panic_any(Intended) })
            .on("first", |_: &Ctx, _: Event| Box::pin(async move { boom() }) as HFut)
            .on("later", |c: &Ctx, _: Event| {
                let c = c.clone();
                Box::pin(async move {
                    sleep(ms(1)).await;
                    c.emit("x", bp(vec![1])).await?;
                    boom()
                }) as HFut
            })
            .on("locked", |c: &Ctx, _: Event| {
                let c = c.clone();
                Box::pin(async move {
                    let _g = c.data.write().await;
                    tokio::task::yield_now().await;
                    boom()
                }) as HFut
            })
            .on("fail", |_: &Ctx, _: Event| Box::pin(async move { Err(Error::Message("no".into())) }) as HFut)
            .on("ok", |c: &Ctx, e: Event| {
                let c = c.clone();
                Box::pin(async move {
                    let _g = c.data.read().await;
                    Response::payload(&c, bp(e.data_raw().to_vec()))
                }) as HFut
            })
            .on("slow", move |c: &Ctx, e: Event| {
                let (c, sl) = (c.clone(), sl.clone());
                Box::pin(async move {
                    sleep(ms(50)).await;
                    sl.lock().unwrap().push(e.id());
                    Response::payload(&c, bp(e.data_raw().to_vec()))
                }) as HFut
            })
            // the other side does something and tells
            .on("relay", |c: &Ctx, e: Event| {
                let c = c.clone();
                Box::pin(async move {
                    let name = String::from_utf8(e.data_raw().to_vec()).unwrap();
                    match c.emit(&name, bp(vec![9])).await_reply().with_timeout(secs(2)).await {
                        Ok(e) => Response::payload(&c, bp(e.data_raw().to_vec())),
                        Err(Error::ErrorEvent(d)) => Response::payload(&c, bp(format!("{} {}", d.code, d.message))),
                        Err(_) => Response::payload(&c, bp(vec![0])),
                    }
                }) as HFut
            })
    };
    let srv = net.serve(mk(net.builder())).await;
    let cfg = LinkCfg::random(&mut r, true);
    let a = net.client(mk(net.builder()), &cfg).await?;
    let b = net.client(mk(net.builder()), &LinkCfg::random(&mut r, true)).await?;
    let bad = ["now", "first", "later", "locked", "fail"];
    let mut hist = vec![];
    for _ in 0..r.range(2, 8) {
        let name = *r.pick(&bad);
        let relayed = r.chance(400);
        hist.push((name, relayed));
        let p = vec![r.next() as u8; 20];
        let slow_a = a.emit("slow", bp(p.clone())).await_reply().with_timeout(secs(20));
        let slow_b = b.emit("slow", bp(p.clone())).await_reply().with_timeout(secs(20));
        let slow_a = tokio::spawn(slow_a);
        let slow_b = tokio::spawn(slow_b);
        sleep(us(r.range(0, 60_000))).await;
        if relayed {
            // the client's handler misbehaves; a raw relay tells the server's view
            let e = a.emit("relay", bp(name)).await;
            ensure!(e.is_ok(), "emit", "emitting failed: {:?}", e);
        } else {
            match r.below(3) {
                0 => {
                    let e = a.emit(name, bp(vec![])).await;
                    ensure!(e.is_ok(), "emit", "emitting failed: {:?}", e);
                }
                _ => {
                    let res = a.emit(name, bp(vec![])).await_reply().with_timeout(secs(3)).await;
                    let fine = match (name, &res) {
                        ("fail", Err(Error::ErrorEvent(d))) => d.code == 500 && d.message.contains("no"),
                        ("fail", _) => false,
                        ("later", Ok(e)) => e.name() == "x",
                        // nobody replies
                        (_, Err(_)) => true,
                        _ => false,
                    };
                    ensure!(fine, "caller", "the caller of '{}' got {:?}", name, res);
                }
            }
        }
        for (who, j) in [("the same connection", slow_a), ("another connection", slow_b)] {
            match j.await {
                Ok(Ok(e)) => ensure!(e.data_raw() == p, "isolation", "an event on {} was answered wrongly", who),
                x => return viol("isolation", format!("after '{}' an event in progress on {} failed: {:?}", name, who, x.map(|y| y.map(|_| ())))),
            }
        }
        for (who, c) in [("the same connection", &a), ("another connection", &b)] {
            match c.emit("ok", bp(p.clone())).await_reply().with_timeout(secs(20)).await {
                Ok(e) => ensure!(e.data_raw() == p, "isolation", "a later event on {} was answered wrongly", who),
                Err(e) => return viol("isolation", format!("after '{}' (relayed: {}) a later event on {} failed: {:?}", name, relayed, who, e)),
            }
            // and the handlers of the client still work: the server's handler asks it
            let n = slow.lock().unwrap().len();
            let e = c.emit("relay", bp("slow")).await;
            ensure!(e.is_ok(), "emit", "emitting failed: {:?}", e);
            sleep(secs(1)).await;
            ensure!(slow.lock().unwrap().len() == n + 1, "isolation", "after '{}' the client on {} does not handle events", name, who);
        }
        let n = net.client(net.builder(), &LinkCfg::default()).await?;
        let e = n.emit("ok", bp(vec![5])).await_reply().with_timeout(secs(20)).await;
        ensure!(e.is_ok() && srv.alive(), "isolation", "a new connection is not served after '{}': {:?}", name, e.map(|_| ()));
    }
    sc.count("misbehaving handlers", hist.len() as u64);
    sc.case(Some(hash_bytes(format!("{:?}{}", hist, cfg.desc()).as_bytes())), || format!("{}: {:?}", T::NAME, hist));
    Ok(())
}

both!(stamina, stamina_);
/// Hundreds of failures and panics on one connection, on both of its sides
async fn stamina_<T: Tp>(sc: Arc<Sc>) -> R {
    let mut r = sc.rng();
    let net = Net::<T>::new(&mut r);
    let mk = |b: IPCBuilder<T::L>| {
        b.on("fail", |_: &Ctx, _: Event| Box::pin(async move { Err(Error::Message("worn out".into())) }) as HFut)
            .on("panic", |_: &Ctx, _: Event| Box::pin(async move { boom() }) as HFut)
            .on("ok", |c: &Ctx, e: Event| {
                let c = c.clone();
                Box::pin(async move { Response::payload(&c, bp(e.data_raw().to_vec())) }) as HFut
            })
            // lets the client's handlers fail
            .on("ask", |c: &Ctx, e: Event| {
                let c = c.clone();
                Box::pin(async move {
                    let name = String::from_utf8(e.data_raw().to_vec()).unwrap();
                    match c.emit(&name, bp(vec![9])).await_reply().with_timeout(secs(2)).await {
                        Ok(e) => Response::payload(&c, bp(e.data_raw().to_vec())),
                        Err(Error::ErrorEvent(d)) => Err(d.into()),
                        Err(_) => Response::payload(&c, bp("nothing")),
                    }
                }) as HFut
            })
    };
    let srv = net.serve(mk(net.builder())).await;
    let a = net.client(mk(net.builder().timeout(secs(3000))), &LinkCfg::default()).await?;
    let b = net.client(mk(net.builder().timeout(secs(3000))), &LinkCfg::default()).await?;
    let n = r.range(100, if sc.thorough { 5000 } else { 900 });
    let mix_of = *r.pick(&["fail", "panic", "both"]);
    let mut count = [0u64; 4];
    for i in 0..n {
        let name = match mix_of {
            "both" => *r.pick(&["fail", "panic"]),
            x => x,
        };
        match r.below(6) {
            // at the server, with and without a caller that waits
            0 | 1 => {
                count[0] += 1;
                ensure!(a.emit(name, bp(vec![])).await.is_ok(), "emit", "emitting failed after {} failures", i);
            }
            2 | 3 if name == "fail" => {
                count[1] += 1;
                let x = a.emit(name, bp(vec![])).await_reply().await;
                ensure!(matches!(&x, Err(Error::ErrorEvent(d)) if d.code == 500 && d.message.contains("worn out")), "caller", "failure {} reached the caller as {:?}", i, x.map(|_| ()));
            }
            // at the client, which the server's handler asks
            4 => {
                count[2] += 1;
                let e = a.emit("ask", bp(name)).await;
                ensure!(e.is_ok(), "emit", "emitting failed after {} failures", i);
            }
            _ => {
                count[3] += 1;
                let p = i.to_be_bytes().to_vec();
                match a.emit("ok", bp(p.clone())).await_reply().await {
                    Ok(e) => ensure!(e.data_raw() == p, "isolation", "an event after {} failures was answered wrongly", i),
                    Err(e) => return viol("isolation", format!("an event after {} failures ({}) got no reply: {:?}", i, mix_of, e)),
                }
            }
        }
    }
    net.settle(secs(10)).await;
    for (who, c) in [("the same connection", &a), ("another connection", &b)] {
        match c.emit("ok", bp(vec![1, 2, 3])).await_reply().await {
            Ok(e) => ensure!(e.data_raw() == [1, 2, 3], "isolation", "an event on {} was answered wrongly", who),
            Err(e) => return viol("isolation", format!("after {:?} failures ({}) an event on {} got no reply: {:?}", count, mix_of, who, e)),
        }
        // the handlers of the client, too
        let mut s = match c.emit("ask", bp("ok")).stream_replies().await {
            Ok(s) => s,
            Err(e) => return viol("isolation", format!("{:?}", e)),
        };
        // the question comes as an item of this stream, so it is left to the handler by dropping the stream
        ensure!(matches!(next(&mut s).await, Some(Ok(_))), "isolation", "after {:?} failures ({}) a handler on {} does not emit", count, mix_of, who);
    }
    ensure!(srv.alive(), "isolation", "the server ended");
    sc.count("failures on one connection", n);
    sc.case(Some(mix(n, hash_bytes(mix_of.as_bytes()))), || format!("{}: {} of {:?} (told, asked, at the client, fine in between)", T::NAME, mix_of, count));
    Ok(())
}

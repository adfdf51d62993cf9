use std::future::Future;
use std::ops::{Add, AddAssign, Sub};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 4) as u64
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);

impl Instant {
    pub fn now() -> Self {
        Instant(simrt::now_ns())
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        *self - o
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + ns(d))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += ns(d)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - ns(d))
    }
}

#[derive(Debug)]
pub struct Sleep {
    at: u64,
    armed: bool,
}

impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.at)
    }
    pub fn is_elapsed(&self) -> bool {
        simrt::now_ns() >= self.at
    }
    pub fn reset(self: Pin<&mut Self>, at: Instant) {
        let this = self.get_mut();
        this.at = at.0;
        this.armed = false;
    }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.is_elapsed() {
            return Poll::Ready(());
        }
        // A new waker may replace an older one, so the timer is armed on every poll.
        simrt::timer(self.at, cx.waker().clone());
        self.armed = true;
        Poll::Pending
    }
}

pub fn sleep(d: Duration) -> Sleep {
    Sleep { at: simrt::now_ns().saturating_add(ns(d)), armed: false }
}

pub fn sleep_until(at: Instant) -> Sleep {
    Sleep { at: at.0, armed: false }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(super) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = Box::pin(f);
    let mut s = Box::pin(sleep(d));
    std::future::poll_fn(|cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        if s.as_mut().poll(cx).is_ready() {
            return Poll::Ready(Err(error::Elapsed(())));
        }
        Poll::Pending
    })
    .await
}

pub async fn timeout_at<F: Future>(at: Instant, f: F) -> Result<F::Output, error::Elapsed> {
    timeout(at - Instant::now(), f).await
}

#[derive(Clone, Copy, Debug)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}

#[derive(Debug)]
pub struct Interval {
    next: u64,
    period: u64,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        let at = Instant(self.next);
        sleep_until(at).await;
        self.next += self.period;
        at
    }
    pub fn reset(&mut self) {
        self.next = simrt::now_ns() + self.period;
    }
    pub fn period(&self) -> Duration {
        Duration::from_nanos(self.period)
    }
    pub fn set_missed_tick_behavior(&mut self, _b: MissedTickBehavior) {}
}
pub fn interval(p: Duration) -> Interval {
    Interval { next: simrt::now_ns(), period: ns(p) }
}
pub fn interval_at(at: Instant, p: Duration) -> Interval {
    Interval { next: at.0, period: ns(p) }
}

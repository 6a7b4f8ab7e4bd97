//! Logging: rotation of log files, levels, and what is written where.
use creep::Context;
use json::JsonValue;
use log::{Level, LevelFilter};
use log4rs::append::console::ConsoleAppender;
use log4rs::append::file::FileAppender;
use log4rs::append::rolling_file::policy::compound::trigger::size::SizeTrigger;
use log4rs::append::rolling_file::policy::compound::CompoundPolicy;
use log4rs::append::rolling_file::RollingFileAppender;
use log4rs::config::{Appender, Config, Logger, Root};
use log4rs::encode::json::JsonEncoder;
use log4rs::encode::pattern::PatternEncoder;
use rustracing_jaeger::span::{SpanContext, TraceId};
use std::collections::HashMap;
use std::fs;
use std::path::{Path, PathBuf};

pub struct DateFixedWindowRoller {
    pattern: String,
}

pub struct Builder;

pub fn build(_: Builder, pattern: &str) -> Result<DateFixedWindowRoller, Box<dyn std::error::Error + Sync + Send>> {
    if pattern.contains("{date}") && pattern.contains("{timestamp}") {
        Ok(DateFixedWindowRoller { pattern: pattern.to_string() })
    } else {
        Err("".into())
    }
}

/// The log gets its new name, or is copied there and then removed; nothing of it is lost, and one that is
/// not there is nothing to do.
pub fn roll_file(r: &DateFixedWindowRoller, log: &Path, date: &str, timestamp: &str) -> Result<(), anyhow::Error> {
    let to = r.pattern.replace("{date}", date).replace("{timestamp}", timestamp);
    if let Some(p) = Path::new(&to).parent() {
        fs::create_dir_all(p)?;
    }
    if let Err(e) = fs::rename(log, &to) {
        if e.kind() != std::io::ErrorKind::NotFound {
            fs::copy(log, &to)?;
            fs::remove_file(log)?;
        }
    }
    Ok(())
}

/// By the date and second of UTC.
pub fn roll(r: &DateFixedWindowRoller, log: &Path) -> Result<(), anyhow::Error> {
    let now = chrono::Utc::now();
    roll_file(r, log, &now.format("%Y-%m-%d").to_string(), &now.timestamp().to_string())
}

pub fn level(l: &str) -> LevelFilter {
    if l == "off" {
        LevelFilter::Off
    } else if l == "error" {
        LevelFilter::Error
    } else if l == "warn" {
        LevelFilter::Warn
    } else if l == "debug" {
        LevelFilter::Debug
    } else if l == "trace" {
        LevelFilter::Trace
    } else {
        LevelFilter::Info
    }
}

struct TraceContext {
    trace_id: TraceId,
    span_id: u64,
}

fn trace_context(ctx: &Context) -> Option<TraceContext> {
    if let Some(Some(c)) = ctx.get::<Option<SpanContext>>("parent_span_ctx") {
        return Some(TraceContext { trace_id: c.state().trace_id(), span_id: c.state().span_id() });
    }
    None
}

pub fn metrics(name: &str, mut content: JsonValue) {
    log::log!(target: "metrics", Level::Trace, "{}", {
        content["name"] = name.into();
        content
    });
}

pub fn log(level: Level, module: &str, event: &str, ctx: &Context, mut msg: JsonValue) {
    if let Some(t) = trace_context(ctx) {
        msg["trace_id"] = t.trace_id.to_string().into();
        msg["span_id"] = t.span_id.into();
    }
    log::log!(target: module, level, "{}", {
        msg["event"] = event.into();
        msg
    });
}

fn rolling(dir: &Path, name: &str, pattern: &str, limit: u64) -> RollingFileAppender {
    let roller = build(Builder, &dir.join(pattern).to_string_lossy()).unwrap();
    RollingFileAppender::builder()
        .encoder(Box::new(JsonEncoder::new()))
        .build(dir.join(name), Box::new(CompoundPolicy::new(Box::new(SizeTrigger::new(limit)), Box::new(roller))))
        .unwrap()
}

impl std::fmt::Debug for DateFixedWindowRoller {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}

impl log4rs::append::rolling_file::policy::compound::roll::Roll for DateFixedWindowRoller {
    fn roll(&self, log: &Path) -> Result<(), anyhow::Error> {
        roll(self, log)
    }
}

pub fn init<S: ::std::hash::BuildHasher>(
    filter: String,
    log_to_console: bool,
    lines: bool,
    log_to_file: bool,
    with_metrics: bool,
    dir: PathBuf,
    limit: u64,
    modules: HashMap<String, String, S>,
) {
    let pattern = if lines { "[{d} {h({l})} {t} {f}:{L}] {m}{n}" } else { "[{d} {h({l})} {t}] {m}{n}" };
    let console = ConsoleAppender::builder().encoder(Box::new(PatternEncoder::new(pattern))).build();
    let file = rolling(&dir, "axon.log", "{date}.axon.{timestamp}.log", limit);
    let cli = FileAppender::builder().encoder(Box::new(JsonEncoder::new())).build(dir.join("cli.log")).unwrap();
    let metrics = rolling(&dir, "metrics.log", "{date}.metrics.{timestamp}.log", limit);
    let mut root = Root::builder();
    if log_to_console {
        root = root.appender("console");
    }
    if log_to_file {
        root = root.appender("file");
    }
    let on = if with_metrics { LevelFilter::Trace } else { LevelFilter::Off };
    let mut c = Config::builder()
        .appender(Appender::builder().build("console", Box::new(console)))
        .appender(Appender::builder().build("file", Box::new(file)))
        .appender(Appender::builder().build("metrics", Box::new(metrics)))
        .appender(Appender::builder().build("cli", Box::new(cli)))
        .logger(Logger::builder().additive(false).appender("metrics").build("metrics", on))
        .logger(Logger::builder().additive(false).appender("cli").appender("console").build("cli", LevelFilter::Trace));
    for (m, l) in &modules {
        c = c.logger(Logger::builder().additive(false).appender("console").appender("file").build(m, level(l)));
    }
    log4rs::init_config(c.build(root.build(level(&filter))).unwrap()).unwrap();
}

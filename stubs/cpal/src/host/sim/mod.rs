//! A host whose devices, errors and callbacks are decided by a simulator.

use std::time::Duration;

use crate::traits::{DeviceTrait, HostTrait, StreamTrait};
use crate::{
    BackendSpecificError, BuildStreamError, Data, DefaultStreamConfigError, DeviceNameError,
    DevicesError, InputCallbackInfo, OutputCallbackInfo, OutputStreamTimestamp, PauseStreamError,
    PlayStreamError, SampleFormat, StreamConfig, StreamError, StreamInstant, SupportedStreamConfig,
    SupportedStreamConfigRange, SupportedStreamConfigsError,
};

/// What the simulator controls
pub mod control {
    use super::*;
    use std::cell::RefCell;
    use std::collections::BTreeMap;

    pub const GUARD: u8 = 0xA7;
    pub const GUARD_LEN: usize = 64;

    pub struct DeviceSpec {
        /// None: asking for the name fails
        pub name: Option<String>,
        pub config: Result<SupportedStreamConfig, DefaultStreamConfigError>,
        /// Errors of the next calls of build_output_stream
        pub build: Vec<Option<BuildStreamError>>,
        /// Errors of the next calls of play
        pub play: Vec<Option<PlayStreamError>>,
    }
    pub type DataCallback = Box<dyn FnMut(&mut Data, &OutputCallbackInfo)>;
    pub type ErrorCallback = Box<dyn FnMut(StreamError)>;
    pub struct StreamState {
        pub device: usize,
        pub format: SampleFormat,
        pub config: StreamConfig,
        pub playing: bool,
        /// None while they run
        pub data: Option<DataCallback>,
        pub error: Option<ErrorCallback>,
    }
    #[derive(Default)]
    pub struct State {
        pub devices: Vec<DeviceSpec>,
        pub default_output: Option<usize>,
        pub fail_devices: bool,
        pub streams: BTreeMap<usize, StreamState>,
        pub next: usize,
        pub calls: u64,
        pub misuse: Vec<String>,
    }
    thread_local! {
        static STATE: RefCell<State> = RefCell::new(State::default());
    }
    pub fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
        STATE.with(|s| f(&mut s.borrow_mut()))
    }
    /// Forget everything. Streams that were leaked are dropped.
    pub fn reset() {
        let old = with(std::mem::take);
        drop(old);
    }
    /// The streams the devices are to be fed from
    pub fn playing() -> Vec<usize> {
        with(|s| {
            s.streams
                .iter()
                .filter(|(_, s)| s.playing)
                .map(|(k, _)| *k)
                .collect()
        })
    }
    /// Ask a stream for `samples` samples. Returns their bytes, or None if the stream is gone.
    /// `run` calls its argument, which is the stream's callback.
    pub fn callback(
        stream: usize,
        samples: usize,
        garbage: u8,
        time: u64,
        run: impl FnOnce(&mut dyn FnMut()),
    ) -> Option<Vec<u8>> {
        let (mut cb, format) = with(|s| {
            let s = s.streams.get_mut(&stream)?;
            Some((s.data.take()?, s.format))
        })?;
        let bytes = samples * format.sample_size();
        // Aligned for every format
        let mut buf = vec![0u64; (bytes + 2 * GUARD_LEN).div_ceil(8)];
        let all: &mut [u8] =
            unsafe { std::slice::from_raw_parts_mut(buf.as_mut_ptr() as *mut u8, buf.len() * 8) };
        all.fill(GUARD);
        all[GUARD_LEN..GUARD_LEN + bytes].fill(garbage);
        let mut data = unsafe {
            Data::from_parts(all[GUARD_LEN..].as_mut_ptr() as *mut (), samples, format)
        };
        let at = StreamInstant::new(time as i64 / 1_000_000_000, (time % 1_000_000_000) as u32);
        let info = OutputCallbackInfo {
            timestamp: OutputStreamTimestamp {
                callback: at,
                playback: at,
            },
        };
        run(&mut || cb(&mut data, &info));
        let ok = all[..GUARD_LEN]
            .iter()
            .chain(&all[GUARD_LEN + bytes..])
            .all(|x| *x == GUARD);
        let res = all[GUARD_LEN..GUARD_LEN + bytes].to_vec();
        let dropped = with(|s| {
            if !ok {
                s.misuse.push("write outside of the device's buffer".into());
            }
            match s.streams.get_mut(&stream) {
                Some(s) => {
                    s.data = Some(cb);
                    None
                }
                None => Some(cb),
            }
        });
        drop(dropped);
        Some(res)
    }
    /// Report an error to a stream
    pub fn error(stream: usize, gone: bool) {
        let Some(mut cb) = with(|s| s.streams.get_mut(&stream)?.error.take()) else {
            return;
        };
        cb(if gone {
            StreamError::DeviceNotAvailable
        } else {
            StreamError::BackendSpecific {
                err: BackendSpecificError {
                    description: "simulated underrun".into(),
                },
            }
        });
        let dropped = with(|s| match s.streams.get_mut(&stream) {
            Some(s) => {
                s.error = Some(cb);
                None
            }
            None => Some(cb),
        });
        drop(dropped);
    }
}
use control::with;

fn specific() -> BackendSpecificError {
    BackendSpecificError {
        description: "simulated".into(),
    }
}

pub struct Devices(std::vec::IntoIter<usize>);

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Device(usize);

pub struct Host;

pub struct Stream(usize);

impl Drop for Stream {
    fn drop(&mut self) {
        let old = with(|s| s.streams.remove(&self.0));
        drop(old);
    }
}

pub struct SupportedInputConfigs;
pub struct SupportedOutputConfigs(Option<SupportedStreamConfigRange>);

impl Host {
    #[allow(dead_code)]
    pub fn new() -> Result<Self, crate::HostUnavailable> {
        Ok(Host)
    }
}

impl DeviceTrait for Device {
    type SupportedInputConfigs = SupportedInputConfigs;
    type SupportedOutputConfigs = SupportedOutputConfigs;
    type Stream = Stream;

    fn name(&self) -> Result<String, DeviceNameError> {
        with(|s| s.devices[self.0].name.clone())
            .ok_or(DeviceNameError::BackendSpecific { err: specific() })
    }

    fn supported_input_configs(
        &self,
    ) -> Result<SupportedInputConfigs, SupportedStreamConfigsError> {
        Ok(SupportedInputConfigs)
    }

    fn supported_output_configs(
        &self,
    ) -> Result<SupportedOutputConfigs, SupportedStreamConfigsError> {
        let c = with(|s| s.devices[self.0].config.as_ref().ok().cloned());
        Ok(SupportedOutputConfigs(c.map(|c| {
            SupportedStreamConfigRange::new(
                c.channels(),
                c.sample_rate(),
                c.sample_rate(),
                c.buffer_size().clone(),
                c.sample_format(),
            )
        })))
    }

    fn default_input_config(&self) -> Result<SupportedStreamConfig, DefaultStreamConfigError> {
        Err(DefaultStreamConfigError::StreamTypeNotSupported)
    }

    fn default_output_config(&self) -> Result<SupportedStreamConfig, DefaultStreamConfigError> {
        with(|s| {
            s.calls += 1;
            match &s.devices[self.0].config {
                Ok(c) => Ok(c.clone()),
                Err(DefaultStreamConfigError::DeviceNotAvailable) => {
                    Err(DefaultStreamConfigError::DeviceNotAvailable)
                }
                Err(DefaultStreamConfigError::StreamTypeNotSupported) => {
                    Err(DefaultStreamConfigError::StreamTypeNotSupported)
                }
                Err(_) => Err(DefaultStreamConfigError::BackendSpecific { err: specific() }),
            }
        })
    }

    fn build_input_stream_raw<D, E>(
        &self,
        _config: &StreamConfig,
        _sample_format: SampleFormat,
        _data_callback: D,
        _error_callback: E,
        _timeout: Option<Duration>,
    ) -> Result<Self::Stream, BuildStreamError>
    where
        D: FnMut(&Data, &InputCallbackInfo) + Send + 'static,
        E: FnMut(StreamError) + Send + 'static,
    {
        Err(BuildStreamError::StreamConfigNotSupported)
    }

    fn build_output_stream_raw<D, E>(
        &self,
        config: &StreamConfig,
        sample_format: SampleFormat,
        data_callback: D,
        error_callback: E,
        _timeout: Option<Duration>,
    ) -> Result<Self::Stream, BuildStreamError>
    where
        D: FnMut(&mut Data, &OutputCallbackInfo) + Send + 'static,
        E: FnMut(StreamError) + Send + 'static,
    {
        with(|s| {
            s.calls += 1;
            let d = &mut s.devices[self.0];
            if !d.build.is_empty() {
                if let Some(e) = d.build.remove(0) {
                    return Err(e);
                }
            }
            // Like real devices: only what it supports
            let ok = match &d.config {
                Ok(c) => {
                    c.channels() == config.channels
                        && c.sample_rate() == config.sample_rate
                        && c.sample_format() == sample_format
                }
                Err(_) => false,
            };
            if !ok {
                return Err(BuildStreamError::StreamConfigNotSupported);
            }
            s.next += 1;
            s.streams.insert(
                s.next,
                control::StreamState {
                    device: self.0,
                    format: sample_format,
                    config: config.clone(),
                    playing: false,
                    data: Some(Box::new(data_callback)),
                    error: Some(Box::new(error_callback)),
                },
            );
            Ok(Stream(s.next))
        })
    }
}

impl HostTrait for Host {
    type Devices = Devices;
    type Device = Device;

    fn is_available() -> bool {
        true
    }

    fn devices(&self) -> Result<Self::Devices, DevicesError> {
        with(|s| {
            s.calls += 1;
            if s.fail_devices {
                return Err(DevicesError::BackendSpecific { err: specific() });
            }
            Ok(Devices((0..s.devices.len()).collect::<Vec<_>>().into_iter()))
        })
    }

    fn default_input_device(&self) -> Option<Device> {
        None
    }

    fn default_output_device(&self) -> Option<Device> {
        with(|s| {
            s.calls += 1;
            s.default_output.map(Device)
        })
    }
}

impl StreamTrait for Stream {
    fn play(&self) -> Result<(), PlayStreamError> {
        with(|s| {
            s.calls += 1;
            let Some(st) = s.streams.get_mut(&self.0) else {
                s.misuse.push("play of a stream that is gone".into());
                return Ok(());
            };
            let d = &mut s.devices[st.device];
            if !d.play.is_empty() {
                if let Some(e) = d.play.remove(0) {
                    return Err(e);
                }
            }
            st.playing = true;
            Ok(())
        })
    }

    fn pause(&self) -> Result<(), PauseStreamError> {
        with(|s| {
            s.calls += 1;
            if let Some(st) = s.streams.get_mut(&self.0) {
                st.playing = false;
            }
            Ok(())
        })
    }
}

impl Iterator for Devices {
    type Item = Device;

    fn next(&mut self) -> Option<Device> {
        self.0.next().map(Device)
    }
}

impl Iterator for SupportedInputConfigs {
    type Item = SupportedStreamConfigRange;

    fn next(&mut self) -> Option<SupportedStreamConfigRange> {
        None
    }
}

impl Iterator for SupportedOutputConfigs {
    type Item = SupportedStreamConfigRange;

    fn next(&mut self) -> Option<SupportedStreamConfigRange> {
        self.0.take()
    }
}

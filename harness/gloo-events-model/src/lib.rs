//! A model of `gloo_events`: listeners are kept in a table of the DOM model.
use std::borrow::Cow;
use web_sys::{Event, EventTarget};

#[derive(Debug)]
#[must_use = "event listener will never be called after being dropped"]
pub struct EventListener {
    target: EventTarget,
    event_type: Cow<'static, str>,
    id: Option<usize>,
}
impl EventListener {
    pub fn new<S, F>(target: &EventTarget, event_type: S, mut callback: F) -> Self
    where
        S: Into<Cow<'static, str>>,
        F: FnMut(&Event) + 'static,
    {
        let event_type = event_type.into();
        let id = web_sys::model::listen(target, &event_type, false, Box::new(move |e| callback(e)));
        EventListener { target: target.clone(), event_type, id: Some(id) }
    }
    pub fn once<S, F>(target: &EventTarget, event_type: S, callback: F) -> Self
    where
        S: Into<Cow<'static, str>>,
        F: FnOnce(&Event) + 'static,
    {
        let event_type = event_type.into();
        let mut callback = Some(callback);
        let id = web_sys::model::listen(target, &event_type, true, Box::new(move |e| (callback.take().expect("once"))(e)));
        EventListener { target: target.clone(), event_type, id: Some(id) }
    }
    pub fn forget(mut self) {
        self.id = None;
    }
    pub fn target(&self) -> &EventTarget {
        &self.target
    }
    pub fn event_type(&self) -> &str {
        &self.event_type
    }
}
impl Drop for EventListener {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            web_sys::model::unlisten(id);
        }
    }
}

//! An in-memory implementation of `wgpu-hal`: buffers are host memory, submissions are executed lazily.
#![allow(unused_variables, clippy::all)]
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use wgpu::hal;
use wgpu as wgt;

macro_rules! impl_dyn {
    ($($t:ty),*) => {$(
        impl hal::DynResource for $t {
            fn as_any(&self) -> &dyn std::any::Any { self }
            fn as_any_mut(&mut self) -> &mut dyn std::any::Any { self }
        }
    )*};
}

/// The memory of a buffer.
pub struct Mem {
    words: Box<[UnsafeCell<u64>]>,
    pub size: usize,
}
unsafe impl Send for Mem {}
unsafe impl Sync for Mem {}
impl std::fmt::Debug for Mem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{} bytes", self.size)
    }
}
impl Mem {
    fn ptr(&self) -> *mut u8 {
        self.words.as_ptr() as *mut u8
    }
    /// What is in it; nothing may be using it.
    pub fn dump(&self) -> Vec<u32> {
        (0..self.size / 4).map(|i| unsafe { (self.ptr() as *const u32).add(i).read() }).collect()
    }
}

#[derive(Clone, Debug)]
pub struct Buf(pub Arc<Mem>);

#[derive(Clone, Debug)]
pub enum Cmd {
    Copy(Arc<Mem>, Arc<Mem>, u64, u64, u64),
    Clear(Arc<Mem>, u64, u64),
}
#[derive(Debug)]
pub struct Cb(Vec<Cmd>);
#[derive(Debug)]
pub struct Fence(Arc<AtomicU64>);

/// What all parts share.
#[derive(Default, Debug)]
pub struct Gpu {
    /// one submission at a time
    exec: Mutex<()>,
    pending: Mutex<VecDeque<(Vec<Cmd>, Arc<AtomicU64>, u64)>>,
    /// how many submissions may be outstanding
    pub lazy: AtomicU32,
    pub commands: AtomicU64,
    pub submissions: AtomicU64,
    pub waits: AtomicU64,
    pub bad: Mutex<Vec<String>>,
}
impl Gpu {
    fn step(&self) -> bool {
        let _g = self.exec.lock().unwrap();
        let Some((cmds, fence, value)) = self.pending.lock().unwrap().pop_front() else { return false };
        for c in cmds {
            self.commands.fetch_add(1, SeqCst);
            match c {
                Cmd::Copy(s, d, so, dof, n) => {
                    if (so + n) as usize > s.size || (dof + n) as usize > d.size || so % 4 != 0 || dof % 4 != 0 || n % 4 != 0 {
                        self.bad.lock().unwrap().push(format!("copy of {n} bytes from {so} of {} to {dof} of {}", s.size, d.size));
                        continue;
                    }
                    unsafe { std::ptr::copy(s.ptr().add(so as usize), d.ptr().add(dof as usize), n as usize) }
                }
                Cmd::Clear(b, a, e) => {
                    if e as usize > b.size {
                        self.bad.lock().unwrap().push(format!("clear of {a}..{e} of {}", b.size));
                        continue;
                    }
                    unsafe { std::ptr::write_bytes(b.ptr().add(a as usize), 0, (e - a) as usize) }
                }
            }
        }
        fence.fetch_max(value, SeqCst);
        true
    }
    pub fn finish(&self) {
        while self.step() {}
    }
}


use hal::TlasInstance;
use std::ops::Range;

#[derive(Clone, Debug)]
pub struct Api;
#[derive(Clone, Debug, Default)]
pub struct Context(pub Arc<Gpu>);
#[derive(Debug, Default)]
pub struct Encoder(Vec<Cmd>);
#[derive(Debug)]
pub struct Resource;

type DeviceResult<T> = Result<T, hal::DeviceError>;

impl hal::Api for Api {
    type Instance = Context;
    type Surface = Context;
    type Adapter = Context;
    type Device = Context;

    type Queue = Context;
    type CommandEncoder = Encoder;
    type CommandBuffer = Cb;

    type Buffer = Buf;
    type Texture = Resource;
    type SurfaceTexture = Resource;
    type TextureView = Resource;
    type Sampler = Resource;
    type QuerySet = Resource;
    type Fence = Fence;
    type AccelerationStructure = Resource;
    type PipelineCache = Resource;

    type BindGroupLayout = Resource;
    type BindGroup = Resource;
    type PipelineLayout = Resource;
    type ShaderModule = Resource;
    type RenderPipeline = Resource;
    type ComputePipeline = Resource;
}

impl_dyn!(Context, Encoder, Resource, Buf, Cb, Fence);

impl hal::DynAccelerationStructure for Resource {}
impl hal::DynBindGroup for Resource {}
impl hal::DynBindGroupLayout for Resource {}
impl hal::DynBuffer for Buf {}
impl hal::DynCommandBuffer for Cb {}
impl hal::DynComputePipeline for Resource {}
impl hal::DynFence for Fence {}
impl hal::DynPipelineCache for Resource {}
impl hal::DynPipelineLayout for Resource {}
impl hal::DynQuerySet for Resource {}
impl hal::DynRenderPipeline for Resource {}
impl hal::DynSampler for Resource {}
impl hal::DynShaderModule for Resource {}
impl hal::DynSurfaceTexture for Resource {}
impl hal::DynTexture for Resource {}
impl hal::DynTextureView for Resource {}

impl std::borrow::Borrow<dyn hal::DynTexture> for Resource {
    fn borrow(&self) -> &dyn hal::DynTexture {
        self
    }
}

impl hal::Instance for Context {
    type A = Api;

    unsafe fn init(desc: &hal::InstanceDescriptor) -> Result<Self, hal::InstanceError> {
        Ok(Context::default())
    }
    unsafe fn create_surface(
        &self,
        _display_handle: wgpu::rwh::RawDisplayHandle,
        _window_handle: wgpu::rwh::RawWindowHandle,
    ) -> Result<Context, hal::InstanceError> {
        Ok(Context::default())
    }
    unsafe fn enumerate_adapters(
        &self,
        _surface_hint: Option<&Context>,
    ) -> Vec<hal::ExposedAdapter<Api>> {
        Vec::new()
    }
}

impl hal::Surface for Context {
    type A = Api;

    unsafe fn configure(
        &self,
        device: &Context,
        config: &hal::SurfaceConfiguration,
    ) -> Result<(), hal::SurfaceError> {
        Ok(())
    }

    unsafe fn unconfigure(&self, device: &Context) {}

    unsafe fn acquire_texture(
        &self,
        timeout: Option<std::time::Duration>,
        fence: &Fence,
    ) -> Result<Option<hal::AcquiredSurfaceTexture<Api>>, hal::SurfaceError> {
        Ok(None)
    }
    unsafe fn discard_texture(&self, texture: Resource) {}
}

impl hal::Adapter for Context {
    type A = Api;

    unsafe fn open(
        &self,
        features: wgt::Features,
        _limits: &wgt::Limits,
        _memory_hints: &wgt::MemoryHints,
    ) -> DeviceResult<hal::OpenDevice<Api>> {
        Ok(hal::OpenDevice { device: self.clone(), queue: self.clone() })
    }
    unsafe fn texture_format_capabilities(
        &self,
        format: wgt::TextureFormat,
    ) -> hal::TextureFormatCapabilities {
        hal::TextureFormatCapabilities::empty()
    }

    unsafe fn surface_capabilities(&self, surface: &Context) -> Option<hal::SurfaceCapabilities> {
        None
    }

    unsafe fn get_presentation_timestamp(&self) -> wgt::PresentationTimestamp {
        wgt::PresentationTimestamp::INVALID_TIMESTAMP
    }
}

impl hal::Queue for Context {
    type A = Api;

    unsafe fn submit(
        &self,
        command_buffers: &[&Cb],
        surface_textures: &[&Resource],
        signal_fence: (&mut Fence, hal::FenceValue),
    ) -> DeviceResult<()> {
        let cmds = command_buffers.iter().flat_map(|c| c.0.iter().cloned()).collect();
        self.0.submissions.fetch_add(1, SeqCst);
        self.0.pending.lock().unwrap().push_back((cmds, signal_fence.0 .0.clone(), signal_fence.1));
        while self.0.pending.lock().unwrap().len() > self.0.lazy.load(SeqCst) as usize {
            self.0.step();
        }
        Ok(())
    }
    unsafe fn present(
        &self,
        surface: &Context,
        texture: Resource,
    ) -> Result<(), hal::SurfaceError> {
        Ok(())
    }

    unsafe fn get_timestamp_period(&self) -> f32 {
        1.0
    }
}

impl hal::Device for Context {
    type A = Api;

    unsafe fn create_buffer(&self, desc: &hal::BufferDescriptor) -> DeviceResult<Buf> {
        // what was there before
        let words = (0..desc.size.div_ceil(8)).map(|i| UnsafeCell::new(0xbad0_0000_bad0_0001u64.wrapping_mul(i + 1))).collect();
        Ok(Buf(Arc::new(Mem {
            words,
            size: desc.size as usize,
        })))
    }
    unsafe fn destroy_buffer(&self, buffer: Buf) {}
    unsafe fn add_raw_buffer(&self, _buffer: &Buf) {}

    unsafe fn map_buffer(
        &self,
        buffer: &Buf,
        range: hal::MemoryRange,
    ) -> DeviceResult<hal::BufferMapping> {
        if range.end as usize > buffer.0.size {
            self.0.bad.lock().unwrap().push(format!("mapping {range:?} of {}", buffer.0.size));
        }
        Ok(hal::BufferMapping {
            ptr: std::ptr::NonNull::new(buffer.0.ptr().add(range.start as usize)).unwrap(),
            is_coherent: true,
        })
    }
    unsafe fn unmap_buffer(&self, buffer: &Buf) {}
    unsafe fn flush_mapped_ranges<I>(&self, buffer: &Buf, ranges: I) {}
    unsafe fn invalidate_mapped_ranges<I>(&self, buffer: &Buf, ranges: I) {}

    unsafe fn create_texture(&self, desc: &hal::TextureDescriptor) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_texture(&self, texture: Resource) {}
    unsafe fn add_raw_texture(&self, _texture: &Resource) {}

    unsafe fn create_texture_view(
        &self,
        texture: &Resource,
        desc: &hal::TextureViewDescriptor,
    ) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_texture_view(&self, view: Resource) {}
    unsafe fn create_sampler(&self, desc: &hal::SamplerDescriptor) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_sampler(&self, sampler: Resource) {}

    unsafe fn create_command_encoder(
        &self,
        desc: &hal::CommandEncoderDescriptor<Context>,
    ) -> DeviceResult<Encoder> {
        Ok(Encoder::default())
    }

    unsafe fn create_bind_group_layout(
        &self,
        desc: &hal::BindGroupLayoutDescriptor,
    ) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_bind_group_layout(&self, bg_layout: Resource) {}
    unsafe fn create_pipeline_layout(
        &self,
        desc: &hal::PipelineLayoutDescriptor<Resource>,
    ) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_pipeline_layout(&self, pipeline_layout: Resource) {}
    unsafe fn create_bind_group(
        &self,
        desc: &hal::BindGroupDescriptor<Resource, Buf, Resource, Resource, Resource>,
    ) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_bind_group(&self, group: Resource) {}

    unsafe fn create_shader_module(
        &self,
        desc: &hal::ShaderModuleDescriptor,
        shader: hal::ShaderInput,
    ) -> Result<Resource, hal::ShaderError> {
        Ok(Resource)
    }
    unsafe fn destroy_shader_module(&self, module: Resource) {}
    unsafe fn create_render_pipeline(
        &self,
        desc: &hal::RenderPipelineDescriptor<Resource, Resource, Resource>,
    ) -> Result<Resource, hal::PipelineError> {
        Ok(Resource)
    }
    unsafe fn destroy_render_pipeline(&self, pipeline: Resource) {}
    unsafe fn create_compute_pipeline(
        &self,
        desc: &hal::ComputePipelineDescriptor<Resource, Resource, Resource>,
    ) -> Result<Resource, hal::PipelineError> {
        Ok(Resource)
    }
    unsafe fn destroy_compute_pipeline(&self, pipeline: Resource) {}
    unsafe fn create_pipeline_cache(
        &self,
        desc: &hal::PipelineCacheDescriptor<'_>,
    ) -> Result<Resource, hal::PipelineCacheError> {
        Ok(Resource)
    }
    unsafe fn destroy_pipeline_cache(&self, cache: Resource) {}

    unsafe fn create_query_set(
        &self,
        desc: &wgpu_types::QuerySetDescriptor<hal::Label>,
    ) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn destroy_query_set(&self, set: Resource) {}
    unsafe fn create_fence(&self) -> DeviceResult<Fence> {
        Ok(Fence(Default::default()))
    }
    unsafe fn destroy_fence(&self, fence: Fence) {}
    unsafe fn get_fence_value(&self, fence: &Fence) -> DeviceResult<hal::FenceValue> {
        Ok(fence.0.load(SeqCst))
    }
    unsafe fn wait(
        &self,
        fence: &Fence,
        value: hal::FenceValue,
        timeout_ms: u32,
    ) -> DeviceResult<bool> {
        self.0.waits.fetch_add(1, SeqCst);
        while fence.0.load(SeqCst) < value && self.0.step() {}
        Ok(fence.0.load(SeqCst) >= value)
    }

    unsafe fn start_capture(&self) -> bool {
        false
    }
    unsafe fn stop_capture(&self) {}
    unsafe fn create_acceleration_structure(
        &self,
        desc: &hal::AccelerationStructureDescriptor,
    ) -> DeviceResult<Resource> {
        Ok(Resource)
    }
    unsafe fn get_acceleration_structure_build_sizes<'a>(
        &self,
        _desc: &hal::GetAccelerationStructureBuildSizesDescriptor<'a, Buf>,
    ) -> hal::AccelerationStructureBuildSizes {
        Default::default()
    }
    unsafe fn get_acceleration_structure_device_address(
        &self,
        _acceleration_structure: &Resource,
    ) -> wgt::BufferAddress {
        Default::default()
    }
    unsafe fn destroy_acceleration_structure(&self, _acceleration_structure: Resource) {}

    fn tlas_instance_to_bytes(&self, instance: TlasInstance) -> Vec<u8> {
        vec![]
    }

    fn get_internal_counters(&self) -> wgt::HalCounters {
        Default::default()
    }
}

impl hal::CommandEncoder for Encoder {
    type A = Api;

    unsafe fn begin_encoding(&mut self, label: hal::Label) -> DeviceResult<()> {
        Ok(())
    }
    unsafe fn discard_encoding(&mut self) {
        self.0.clear();
    }
    unsafe fn end_encoding(&mut self) -> DeviceResult<Cb> {
        Ok(Cb(std::mem::take(&mut self.0)))
    }
    unsafe fn reset_all<I>(&mut self, command_buffers: I) {}

    unsafe fn transition_buffers<'a, T>(&mut self, barriers: T)
    where
        T: Iterator<Item = hal::BufferBarrier<'a, Buf>>,
    {
    }

    unsafe fn transition_textures<'a, T>(&mut self, barriers: T)
    where
        T: Iterator<Item = hal::TextureBarrier<'a, Resource>>,
    {
    }

    unsafe fn clear_buffer(&mut self, buffer: &Buf, range: hal::MemoryRange) {
        self.0.push(Cmd::Clear(buffer.0.clone(), range.start, range.end));
    }

    unsafe fn copy_buffer_to_buffer<T>(&mut self, src: &Buf, dst: &Buf, regions: T)
    where
        T: Iterator<Item = hal::BufferCopy>,
    {
        for r in regions {
            self.0.push(Cmd::Copy(src.0.clone(), dst.0.clone(), r.src_offset, r.dst_offset, r.size.get()));
        }
    }

    unsafe fn copy_texture_to_texture<T>(
        &mut self,
        src: &Resource,
        src_usage: hal::TextureUses,
        dst: &Resource,
        regions: T,
    ) {
    }

    unsafe fn copy_buffer_to_texture<T>(&mut self, src: &Buf, dst: &Resource, regions: T) {}

    unsafe fn copy_texture_to_buffer<T>(
        &mut self,
        src: &Resource,
        src_usage: hal::TextureUses,
        dst: &Buf,
        regions: T,
    ) {
    }

    unsafe fn begin_query(&mut self, set: &Resource, index: u32) {}
    unsafe fn end_query(&mut self, set: &Resource, index: u32) {}
    unsafe fn write_timestamp(&mut self, set: &Resource, index: u32) {}
    unsafe fn reset_queries(&mut self, set: &Resource, range: Range<u32>) {}
    unsafe fn copy_query_results(
        &mut self,
        set: &Resource,
        range: Range<u32>,
        buffer: &Buf,
        offset: wgt::BufferAddress,
        stride: wgt::BufferSize,
    ) {
    }

    // render

    unsafe fn begin_render_pass(&mut self, desc: &hal::RenderPassDescriptor<Resource, Resource>) {
    }
    unsafe fn end_render_pass(&mut self) {}

    unsafe fn set_bind_group(
        &mut self,
        layout: &Resource,
        index: u32,
        group: &Resource,
        dynamic_offsets: &[wgt::DynamicOffset],
    ) {
    }
    unsafe fn set_push_constants(
        &mut self,
        layout: &Resource,
        stages: wgt::ShaderStages,
        offset_bytes: u32,
        data: &[u32],
    ) {
    }

    unsafe fn insert_debug_marker(&mut self, label: &str) {}
    unsafe fn begin_debug_marker(&mut self, group_label: &str) {}
    unsafe fn end_debug_marker(&mut self) {}

    unsafe fn set_render_pipeline(&mut self, pipeline: &Resource) {}

    unsafe fn set_index_buffer<'a>(
        &mut self,
        binding: hal::BufferBinding<'a, Buf>,
        format: wgt::IndexFormat,
    ) {
    }
    unsafe fn set_vertex_buffer<'a>(
        &mut self,
        index: u32,
        binding: hal::BufferBinding<'a, Buf>,
    ) {
    }
    unsafe fn set_viewport(&mut self, rect: &hal::Rect<f32>, depth_range: Range<f32>) {}
    unsafe fn set_scissor_rect(&mut self, rect: &hal::Rect<u32>) {}
    unsafe fn set_stencil_reference(&mut self, value: u32) {}
    unsafe fn set_blend_constants(&mut self, color: &[f32; 4]) {}

    unsafe fn draw(
        &mut self,
        first_vertex: u32,
        vertex_count: u32,
        first_instance: u32,
        instance_count: u32,
    ) {
    }
    unsafe fn draw_indexed(
        &mut self,
        first_index: u32,
        index_count: u32,
        base_vertex: i32,
        first_instance: u32,
        instance_count: u32,
    ) {
    }
    unsafe fn draw_indirect(
        &mut self,
        buffer: &Buf,
        offset: wgt::BufferAddress,
        draw_count: u32,
    ) {
    }
    unsafe fn draw_indexed_indirect(
        &mut self,
        buffer: &Buf,
        offset: wgt::BufferAddress,
        draw_count: u32,
    ) {
    }
    unsafe fn draw_indirect_count(
        &mut self,
        buffer: &Buf,
        offset: wgt::BufferAddress,
        count_buffer: &Buf,
        count_offset: wgt::BufferAddress,
        max_count: u32,
    ) {
    }
    unsafe fn draw_indexed_indirect_count(
        &mut self,
        buffer: &Buf,
        offset: wgt::BufferAddress,
        count_buffer: &Buf,
        count_offset: wgt::BufferAddress,
        max_count: u32,
    ) {
    }

    // compute

    unsafe fn begin_compute_pass(&mut self, desc: &hal::ComputePassDescriptor<Resource>) {}
    unsafe fn end_compute_pass(&mut self) {}

    unsafe fn set_compute_pipeline(&mut self, pipeline: &Resource) {}

    unsafe fn dispatch(&mut self, count: [u32; 3]) {}
    unsafe fn dispatch_indirect(&mut self, buffer: &Buf, offset: wgt::BufferAddress) {}

    unsafe fn build_acceleration_structures<'a, T>(
        &mut self,
        _descriptor_count: u32,
        descriptors: T,
    ) where
        Api: 'a,
        T: IntoIterator<Item = hal::BuildAccelerationStructureDescriptor<'a, Buf, Resource>>,
    {
    }

    unsafe fn place_acceleration_structure_barrier(
        &mut self,
        _barriers: hal::AccelerationStructureBarrier,
    ) {
    }
}

impl wgpu::core::hal_api::HalApi for Api {
    const VARIANT: wgt::Backend = wgt::Backend::Vulkan;
}

pub fn exposed(c: Context) -> hal::ExposedAdapter<Api> {
    hal::ExposedAdapter {
        adapter: c,
        info: wgt::AdapterInfo {
            name: "memory".into(),
            vendor: 0,
            device: 0,
            device_type: wgt::DeviceType::Cpu,
            driver: String::new(),
            driver_info: String::new(),
            backend: wgt::Backend::Vulkan,
        },
        features: wgt::Features::empty(),
        capabilities: hal::Capabilities {
            limits: wgt::Limits::default(),
            alignments: hal::Alignments {
                buffer_copy_offset: std::num::NonZeroU64::new(1).unwrap(),
                buffer_copy_pitch: std::num::NonZeroU64::new(1).unwrap(),
                uniform_bounds_check_alignment: std::num::NonZeroU64::new(4).unwrap(),
                raw_tlas_instance_size: 64,
                ray_tracing_scratch_buffer_alignment: 256,
            },
            downlevel: wgt::DownlevelCapabilities::default(),
        },
    }
}

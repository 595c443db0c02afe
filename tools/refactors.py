"""Edits that keep the behaviour: the checks have to stay quiet on each. (id, checks to run, [(file, old, new)])"""
R = [
("varint-helper", ["P07"], [("types.rs", """            let exp = 4u32.pow(i);

            if value <= (exp * 31) {
                let mut mantissa = value / exp;
                let remainder = value % exp;

                if ceil && remainder > 0 {
                    mantissa += 1;
                }
                return Ok((i as u8, mantissa as u8));
            }
""", """            let exp = 4u32.pow(i);

            if value <= (exp * 31) {
                return Ok((i as u8, Self::scaled(value, exp, ceil) as u8));
            }
"""), ("types.rs", """    /// Returns whether the value is encodable""", """    fn scaled(value: u32, exp: u32, ceil: bool) -> u32 {
        let mantissa = value / exp;
        if ceil && value % exp > 0 {
            mantissa + 1
        } else {
            mantissa
        }
    }

    /// Returns whether the value is encodable""")]),
("varint-while", ["P07"], [("types.rs", """        for i in 0..8 {
            let exp = 4u32.pow(i);
""", """        let mut i = 0u32;
        while i < 8 {
            let exp = 4u32.pow(i);
"""), ("types.rs", """                return Ok((i as u8, mantissa as u8));
            }
        }""", """                return Ok((i as u8, mantissa as u8));
            }
            i += 1;
        }""")]),
("varint-write-try", ["P07", "P04"], [("types.rs", """        match Self::compress(*value, *ceil) {
            Ok((exponent, mantissa)) => {
                DekuWriter::to_writer(&exponent, writer, (Endian::Big, BitSize(3)))?;
                DekuWriter::to_writer(&mantissa, writer, (Endian::Big, BitSize(5)))?;
                Ok(())
            }
            Err(err) => Err(err.into()),
        }""", """        let (exponent, mantissa) = Self::compress(*value, *ceil).map_err(|e| -> DekuError { e.into() })?;
        exponent.to_writer(writer, (Endian::Big, BitSize(3)))?;
        mantissa.to_writer(writer, (Endian::Big, BitSize(5)))""")]),
("varint-decompress-reorder", ["P07"], [("types.rs", """        if exponent & 0b11111000 > 0 {
            return Err(VarIntError::ExponentTooLarge(exponent));
        }

        if mantissa & 0b11100000 > 0 {
            return Err(VarIntError::MantissaTooLarge(mantissa));
        }

        Ok(4u32.pow(exponent as u32) * mantissa as u32)""", """        if exponent > 7 {
            Err(VarIntError::ExponentTooLarge(exponent))
        } else if mantissa > 31 {
            Err(VarIntError::MantissaTooLarge(mantissa))
        } else {
            Ok((mantissa as u32) << (2 * exponent as u32))
        }""")]),
("length-match", ["P06", "P12"], [("app/operation/length.rs", """        let num_extra_bits = Length::required_bits(*value).checked_sub(6).unwrap_or(0);

        let mut num_extra_bytes = num_extra_bits.checked_div(u8::BITS).unwrap_or(0);
        if (num_extra_bits % u8::BITS) > 0 {
            num_extra_bytes += 1;
        }
""", """        let num_extra_bytes = Length::extra_bytes(*value);
"""), ("app/operation/length.rs", """    fn read<R>(reader""", """    fn extra_bytes(value: u32) -> u32 {
        let num_extra_bits = Length::required_bits(value).saturating_sub(6);
        num_extra_bits.div_ceil(u8::BITS)
    }

    fn read<R>(reader""")]),
("length-thresholds", ["P06"], [("app/operation/length.rs", """        let num_extra_bits = Length::required_bits(*value).checked_sub(6).unwrap_or(0);

        let mut num_extra_bytes = num_extra_bits.checked_div(u8::BITS).unwrap_or(0);
        if (num_extra_bits % u8::BITS) > 0 {
            num_extra_bytes += 1;
        }
""", """        let num_extra_bytes: u32 = match Length::required_bits(*value) {
            0..=6 => 0,
            7..=14 => 1,
            15..=22 => 2,
            23..=30 => 3,
            _ => 4,
        };
""")]),
("length-read-split", ["P06", "P04"], [("app/operation/length.rs", """        let value = <u32 as DekuReader<'_, _>>::from_reader_with_ctx(
            reader,
            (Endian::Big, BitSize((6 + (size * u8::BITS as u8)) as usize)),
        )?;
        Ok(value)""", """        let bits = 6 + size as usize * 8;
        u32::from_reader_with_ctx(reader, (Endian::Big, BitSize(bits)))""")]),
("prefix-helper", ["P12", "P11", "P10"], [("utils.rs", """    let _ = item.to_writer(&mut tmp_writer, ctx)?;
    let _ = tmp_writer.finalize();

    // get the length of it
    let out_buf = out_buf_cur.get_mut();
    let data_length: Length = out_buf.len().into();

    // and then write them
    data_length.to_writer(writer, ())?;
    out_buf.to_writer(writer, ())?;

    Ok(())
}

pub fn write_length_prefixed_ext""", """    let _ = item.to_writer(&mut tmp_writer, ctx)?;
    let _ = tmp_writer.finalize();

    write_buffer(writer, out_buf_cur.get_mut())
}

fn write_buffer<W>(writer: &mut Writer<W>, out_buf: &Vec<u8>) -> Result<(), DekuError>
where
    W: Write + Seek,
{
    // get the length of it
    let data_length: Length = out_buf.len().into();

    // and then write them
    data_length.to_writer(writer, ())?;
    out_buf.to_writer(writer, ())?;

    Ok(())
}

pub fn write_length_prefixed_ext""")]),
("prefix-ext-delegates", ["P12", "P11"], [("utils.rs", """    let enum_id = enum_id.try_into()?;

    // first write the whole item into a byte buffer
    let mut out_buf_cur = Cursor::new(Vec::new());
    let mut tmp_writer = Writer::new(&mut out_buf_cur);
    item.to_writer(&mut tmp_writer, (enum_id, fallback_length))?;
    let _ = tmp_writer.finalize();

    // get the length of it
    let out_buf = out_buf_cur.get_mut();
    let data_length: Length = out_buf.len().into();

    // and then write them
    data_length.to_writer(writer, ())?;
    out_buf.to_writer(writer, ())?;

    Ok(())""", """    let enum_id: E = enum_id.try_into()?;
    write_length_prefixed(writer, item, (enum_id, fallback_length))""")]),
("pad-rest-simplified", ["P05", "P02"], [("utils.rs", """    let read_whole_byte = (bits_read % 8) == 0;
    let idx = if read_whole_byte {
        bits_read / 8
    } else {
        (bits_read - (bits_read % 8)) / 8
    };
    (&rest.0[idx..], bits_read % 8)""", """    let idx = bits_read / 8;
    let bits = bits_read % 8;
    (&rest.0[idx..], bits)""")]),
("write-array-index", ["P16", "P11"], [("utils.rs", """    for elem in value.iter() {
        DekuWriter::to_writer(elem, writer, ())?;
    }
    Ok(())""", """    for i in 0..N {
        value[i].to_writer(writer, ())?;
    }
    Ok(())""")]),
("write-array-tryforeach", ["P16"], [("utils.rs", """    for elem in value.iter() {
        DekuWriter::to_writer(elem, writer, ())?;
    }
    Ok(())""", """    value.iter().try_for_each(|elem| elem.to_writer(writer, ()))""")]),
("write-string-len", ["P16", "P11"], [("utils.rs", """    let max_index = cmp::min(value.len(), N);
    bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
""", """    let raw = value.as_bytes();
    let max_index = raw.len().min(N);
    bytes[..max_index].copy_from_slice(&raw[..max_index]);
""")]),
("command-read-loop", ["P02", "P04"], [("app/command.rs", """        while valid_length(reader, length)? && !Self::at_end(reader)? {
            if let Some(Action::IndirectForward(_)) = command.actions.last() {
                return Ok(command);
            }
            let action = Action::from_reader_with_ctx(reader, ())?;
            command.actions.push(action);
        }
        return Ok(command);""", """        loop {
            if !valid_length(reader, length)? || Self::at_end(reader)? {
                break;
            }
            if matches!(command.actions.last(), Some(Action::IndirectForward(_))) {
                break;
            }
            command.actions.push(Action::from_reader_with_ctx(reader, ())?);
        }
        Ok(command)""")]),
("command-read-helper", ["P02", "P05"], [("app/command.rs", """        let valid_length = |r: &mut Reader<R>, l: u32| -> Result<bool, DekuError> {
            Ok(match l {
                0 => true,
                _ => {
                    r.stream_position()
                        .map_err(|err| DekuError::Io(err.kind()))?
                        < (l as u64)
                }
            })
        };

        while valid_length(reader, length)? && !Self::at_end(reader)? {""", """        while Self::valid_length(reader, length)? && !Self::at_end(reader)? {"""),
 ("app/command.rs", """    fn at_end<R>(reader""", """    fn valid_length<R>(reader: &mut Reader<R>, length: u32) -> Result<bool, DekuError>
    where
        R: no_std_io::Read + no_std_io::Seek,
    {
        if length == 0 {
            return Ok(true);
        }
        let position = reader
            .stream_position()
            .map_err(|err| DekuError::Io(err.kind()))?;
        Ok(position < (length as u64))
    }

    fn at_end<R>(reader""")]),
("command-write-for", ["P02"], [("app/command.rs", """        for action in self.actions.iter() {
            action.to_writer(writer, ())?;
        }
        Ok(())""", """        for action in &self.actions {
            DekuWriter::to_writer(action, writer, ())?;
        }
        Ok(())""")]),
("accessor-find-map", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::RequestTag(operation) = action {
                return Some(operation);
            }
        }
        None""", """        self.actions.iter().find_map(|action| match action {
            Action::RequestTag(operation) => Some(operation),
            _ => None,
        })""")]),
("accessor-filter", ["P13"], [("app/command.rs", """        let mut actions = vec![];
        for action in self.actions.iter() {
            if let Action::Status(status) = &action {
                if let Status::Interface(_) = &status.status {
                    continue;
                }
            }
            actions.push(action);
        }
        actions""", """        let mut actions = vec![];
        for action in self.actions.iter() {
            if !Self::is_interface_status(action) {
                actions.push(action);
            }
        }
        actions
    }

    fn is_interface_status(action: &Action) -> bool {
        match action {
            Action::Status(status) => matches!(&status.status, Status::Interface(_)),
            _ => false,
        }""")]),
("accessor-last-via-tag", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::ResponseTag(ResponseTag {
                header: ResponseTagHeader { end_of_packet, .. },
                ..
            }) = action
            {
                return *end_of_packet;
            }
        }
        false""", """        match self.response_tag() {
            Some(tag) => tag.header.end_of_packet,
            None => false,
        }"""), ("app/command.rs", "operation::{RequestTag, ResponseTag, ResponseTagHeader, Status}", "operation::{RequestTag, ResponseTag, Status}")]),
("accessor-tagid-match", ["P13"], [("app/command.rs", """        self.request_id().or(self.response_id())""", """        if let Some(id) = self.request_id() {
            Some(id)
        } else {
            self.response_id()
        }""")]),
("accessor-while", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::ResponseTag(operation) = action {
                return Some(operation);
            }
        }
        None""", """        let mut i = 0;
        while i < self.actions.len() {
            if let Action::ResponseTag(operation) = &self.actions[i] {
                return Some(operation);
            }
            i += 1;
        }
        None""")]),
("trailing-helper", ["P05", "P02", "P01"], [("app/command.rs", """        let (rest, res) = Self::from_bytes((input, 0))?;
        if !rest.0.is_empty() {
            return Err(DekuError::Parse({
                let res = fmt::format(format_args!("Too much data"));
                Cow::Owned(res)
            }));
        }
        Ok(res)""", """        let (rest, res) = Self::from_bytes((input, 0))?;
        if rest.0.len() > 0 {
            Err(DekuError::Parse(Cow::Borrowed("Too much data")))
        } else {
            Ok(res)
        }"""), ("app/action.rs", """        if !rest.0.is_empty() {
            return Err(DekuError::Parse({
                let res = fmt::format(format_args!("Too much data"));
                Cow::Owned(res)
            }));
        }
        Ok(res)""", """        match rest.0 {
            [] => Ok(res),
            _ => Err(DekuError::Parse(Cow::Owned(fmt::format(format_args!("Too much data"))))),
        }""")]),
("filedata-size-helper", ["P01", "P12", "P11"], [("app/operation/mod.rs", """        let vec_size = match data {
            File::Other(val) => val.len() as u32,
            _ => 0,
        };

        write_length_prefixed_ext(writer, data, offset.file_id, vec_size)
    }""", """        write_length_prefixed_ext(writer, data, offset.file_id, Self::fallback_length(data))
    }

    fn fallback_length(data: &File) -> u32 {
        if let File::Other(val) = data {
            return val.len() as u32;
        }
        0
    }""")]),
("filedata-read-reorder", ["P01", "P04"], [("app/operation/mod.rs", """        let length = <Length as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
        let file_id = offset.file_id.try_into()?;
        File::from_reader_with_ctx(reader, (file_id, Into::<u32>::into(length)))""", """        let length: u32 = Length::from_reader_with_ctx(reader, ())?.into();
        let file_id: crate::file::FileId = offset.file_id.try_into()?;
        let file = File::from_reader_with_ctx(reader, (file_id, length))?;
        Ok(file)""")]),
("ifstatus-read-clean", ["P10", "P12"], [("app/operation/mod.rs", """        // Subiot v0.0 was missing the length field
        #[allow(unused_assignments)]
        let mut length = Length(0);

        #[cfg(not(feature = "subiot_v0_0"))]
        {
            length = Length::from_reader_with_ctx(reader, ())?;
        }

        InterfaceStatus::from_reader_with_ctx(reader, (interface_type, length.into()))""", """        let length = Length::from_reader_with_ctx(reader, ())?;
        let context = (interface_type, length.into());
        InterfaceStatus::from_reader_with_ctx(reader, context)""")]),
("new-locals", ["P17", "P09", "P08"], [("app/query.rs", """        Self {
            mask_present: mask.len() > 0,
            params,
            length: mask.len().into(),
            start: start.into(),
            stop: stop.into(),
            mask,
            file,
        }""", """        let mask_present = !mask.is_empty();
        let length = Length::from(mask.len());
        Self {
            mask_present,
            params,
            length,
            start: Length::from(start),
            stop: Length::from(stop),
            mask,
            file,
        }""")]),
("action-read-fn", ["P01", "P03"], [("app/action.rs", """            OpCode::NOP => read_action!(Nop, Nop, reader, code),""", """            OpCode::NOP => Action::Nop(Nop::from_reader_with_ctx(reader, code)?),""")]),
("action-deku-id-order", ["P01", "P03", "P17"], [("app/action.rs", """            Action::Nop(_) => Ok(OpCode::NOP),
            Action::ReadFileData(_) => Ok(OpCode::READ_FILE_DATA),""", """            Action::ReadFileData(..) => Ok(OpCode::READ_FILE_DATA),
            Action::Nop { .. } => Ok(OpCode::NOP),""")]),
("status-is-err", ["P10", "P14"], [("app/operation/mod.rs", "*self >= StatusCode::UNKNOWN_ERROR", "self.0 & 0x80 != 0")]),
("noop-stmts", ["P01", "P07", "P13", "P16", "P05"], [("types.rs", """        for i in 0..8 {
            let exp""", """        let _ = value;
        for i in 0..8 {
            let _unused = i;
            let exp"""), ("app/command.rs", """        let mut command = Command { actions: vec![] };
""", """        let mut command = Command { actions: vec![] };
        let _ = 0;
        let _noop = ();
"""), ("utils.rs", """    let mut bytes = [0u8; N];
""", """    let _ = ();
    let mut bytes = [0u8; N];
    drop(0u8);
"""), ("utils.rs", """    let read_whole_byte = (""", """    core::hint::black_box(());
    let read_whole_byte = ("""), ("app/operation/length.rs", """        Ok(value)
""", """        {}
        ();
        Ok(value)
""")]),
("move-method", ["P06", "P07"], [("app/operation/length.rs", """        // This may be slow. There are faster ways, but we're not optimising for speed anyway
        value.checked_ilog2().unwrap_or(0) + 1""", """        match value.checked_ilog2() {
            Some(log) => log + 1,
            None => 1,
        }""")]),
("length-bits-lz", ["P06"], [("app/operation/length.rs", """        // This may be slow. There are faster ways, but we're not optimising for speed anyway
        value.checked_ilog2().unwrap_or(0) + 1""", """        let significant = u32::BITS - value.leading_zeros();
        significant.max(1)""")]),
("const-extracted", ["P07", "P06"], [("types.rs", "if value <= (exp * 31) {", "if value <= exp * Self::MAX_MANTISSA {"), ("types.rs", "    pub const MAX: u32 = 507904;", "    pub const MAX: u32 = 507904;\n    const MAX_MANTISSA: u32 = 31;"),
   ("app/operation/length.rs", "BitSize((6 + num_extra_bytes * u8::BITS) as usize)", "BitSize((BASE_BITS + num_extra_bytes * u8::BITS) as usize)"), ("app/operation/length.rs", "impl Length {\n", "const BASE_BITS: u32 = 6;\n\nimpl Length {\n")]),
("read-array-zip", ["P16"], [("utils.rs", """    for i in 0..N {
        let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
        data[i].write(value);
        transient_dropper.initialized_count += 1;
    }
""", """    let mut i = 0;
    while i < N {
        data[i] = MaybeUninit::new(<T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?);
        i += 1;
        transient_dropper.initialized_count = i;
    }
""")]),
("read-array-vec", ["P16"], [("utils.rs", """    let mut data: [MaybeUninit<T>; N] = unsafe { MaybeUninit::uninit().assume_init() };

    let mut transient_dropper = TransientDropper {
        base_ptr: data.as_mut_ptr() as *mut T,
        initialized_count: 0,
    };

    for i in 0..N {
        let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
        data[i].write(value);
        transient_dropper.initialized_count += 1;
    }

    mem::forget(transient_dropper);

    Ok(data.map(|elem: MaybeUninit<T>| unsafe { elem.assume_init() }))
""", """    let mut data: Vec<T> = Vec::with_capacity(N);
    for _ in 0..N {
        data.push(<T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?);
    }
    match data.try_into() {
        Ok(x) => Ok(x),
        Err(_) => unreachable!(),
    }
""")]),

("from-status", ["P17","P10"], [("app/operation/mod.rs", """impl Into<StatusOperand> for Status {
    fn into(self) -> StatusOperand {
        StatusOperand {
            status_type: self.deku_id().unwrap(),
            opcode: OpCode::STATUS,
            status: self,
        }
    }
}""", """impl From<Status> for StatusOperand {
    fn from(status: Status) -> Self {
        Self {
            status_type: status.deku_id().unwrap(),
            opcode: OpCode::STATUS,
            status,
        }
    }
}"""), ("app/operation/mod.rs", """impl Into<Chunk> for ChunkStep {
    fn into(self) -> Chunk {
        Chunk {
            step: self,
            opcode: OpCode::CHUNK,
        }
    }
}""", """impl From<ChunkStep> for Chunk {
    fn from(step: ChunkStep) -> Self {
        let opcode = OpCode::CHUNK;
        Self { step, opcode }
    }
}""")]),
("from-ids", ["P17","P14","P06"], [("file/mod.rs", """impl Into<u8> for FileId {
    fn into(self) -> u8 {
        self.deku_id().unwrap()
    }
}""", """impl From<FileId> for u8 {
    fn from(id: FileId) -> u8 {
        id.deku_id().unwrap()
    }
}"""), ("session/mod.rs", "Ok(Self::from_bytes((&vec![value], 0))?.1)", "Self::from_bytes((&[value], 0)).map(|(_, v)| v)"),
 ("app/operation/length.rs", """impl Into<usize> for Length {
    fn into(self) -> usize {
        self.0 as usize
    }
}""", """impl From<Length> for usize {
    fn from(length: Length) -> usize {
        length.0 as usize
    }
}""")]),
("action-read-generic", ["P01","P03","P04"], [("app/action.rs", """        <$operation as DekuReader<'_, _>>::from_reader_with_ctx($reader, $opcode)
            .map(|action| Self::$action(action))?""", """        Self::$action(read_operation::<_, $operation>($reader, $opcode)?)"""),
 ("app/action.rs", """impl<'a> DekuReader<'a, ()> for Action {""", """fn read_operation<'a, R, T>(reader: &mut Reader<R>, opcode: OpCode) -> Result<T, DekuError>
where
    R: no_std_io::Read + no_std_io::Seek,
    T: DekuReader<'a, OpCode>,
{
    T::from_reader_with_ctx(reader, opcode)
}

impl<'a> DekuReader<'a, ()> for Action {""")]),
("valid-length-inline", ["P02","P15"], [("app/command.rs", """        let valid_length = |r: &mut Reader<R>, l: u32| -> Result<bool, DekuError> {
            Ok(match l {
                0 => true,
                _ => {
                    r.stream_position()
                        .map_err(|err| DekuError::Io(err.kind()))?
                        < (l as u64)
                }
            })
        };

        while valid_length(reader, length)? && !Self::at_end(reader)? {
""", """        loop {
            if length != 0 {
                let position = reader
                    .stream_position()
                    .map_err(|err| DekuError::Io(err.kind()))?;
                if position >= u64::from(length) {
                    break;
                }
            }
            if Self::at_end(reader)? {
                break;
            }
""")]),
("is-last-map", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::ResponseTag(ResponseTag {
                header: ResponseTagHeader { end_of_packet, .. },
                ..
            }) = action
            {
                return *end_of_packet;
            }
        }
        false
    }""", """        self.response_tag()
            .map(|tag| tag.header.end_of_packet)
            .unwrap_or_default()
    }""")]),
("is-last-letelse", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::ResponseTag(ResponseTag {
                header: ResponseTagHeader { end_of_packet, .. },
                ..
            }) = action
            {
                return *end_of_packet;
            }
        }
        false
    }""", """        let Some(tag) = self.response_tag() else {
            return false;
        };
        tag.header.end_of_packet
    }"""), ("app/command.rs", """        self.request_id().or(self.response_id())""", """        self.request_id().or_else(|| self.response_id())""")]),
("is-last-matches", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::ResponseTag(ResponseTag {
                header: ResponseTagHeader { end_of_packet, .. },
                ..
            }) = action
            {
                return *end_of_packet;
            }
        }
        false
    }""", """        matches!(self.response_tag(), Some(tag) if tag.header.end_of_packet)
    }""")]),
("status-nested-pattern", ["P13"], [("app/command.rs", """            if let Action::Status(status) = &action {
                if let Status::Interface(iface_status) = &status.status {
                    return Some(&iface_status.status);
                }
            }""", """            match action {
                Action::Status(super::operation::StatusOperand {
                    status: Status::Interface(operation),
                    ..
                }) => return Some(&operation.status),
                _ => {}
            }"""), ("app/command.rs", """            if let Action::Status(status) = &action {
                if let Status::Interface(_) = &status.status {
                    continue;
                }
            }
            actions.push(action);""", """            let is_interface_status = match action {
                Action::Status(operand) => matches!(operand.status, Status::Interface(_)),
                _ => false,
            };
            if !is_interface_status {
                actions.push(action);
            }""")]),
("varint-find", ["P07"], [("types.rs", """        for i in 0..8 {
            let exp = 4u32.pow(i);

            if value <= (exp * 31) {
                let mut mantissa = value / exp;
                let remainder = value % exp;

                if ceil && remainder > 0 {
                    mantissa += 1;
                }
                return Ok((i as u8, mantissa as u8));
            }
        }

        // TODO when does this happen?
        Err(VarIntError::Unknown)""", """        let exponent = (0..8u32)
            .find(|e| value <= 4u32.pow(*e) * 31)
            .ok_or(VarIntError::Unknown)?;
        let unit = 4u32.pow(exponent);
        let mantissa = if ceil {
            value.div_ceil(unit)
        } else {
            value / unit
        };
        Ok((exponent as u8, mantissa as u8))""")]),
("varint-shift", ["P07"], [("types.rs", "let exp = 4u32.pow(i);", "let exp = 1u32 << (2 * i);"), ("types.rs", "Ok(4u32.pow(exponent as u32) * mantissa as u32)", "Ok((mantissa as u32) << (2 * exponent as u32))")]),
("varint-shift-loop", ["P07"], [("types.rs", """        for i in 0..8 {
            let exp = 4u32.pow(i);

            if value <= (exp * 31) {
                let mut mantissa = value / exp;
                let remainder = value % exp;

                if ceil && remainder > 0 {
                    mantissa += 1;
                }
                return Ok((i as u8, mantissa as u8));
            }
        }

        // TODO when does this happen?
        Err(VarIntError::Unknown)""", """        let mut exponent = 0u8;
        let mut unit = 1u32;
        while value > unit * 31 {
            exponent += 1;
            unit *= 4;
        }

        let mut mantissa = (value / unit) as u8;
        if ceil && value % unit != 0 {
            mantissa += 1;
        }
        Ok((exponent, mantissa))""")]),
("prefix-into-inner", ["P12","P10"], [("utils.rs", """    let _ = item.to_writer(&mut tmp_writer, ctx)?;
    let _ = tmp_writer.finalize();

    // get the length of it
    let out_buf = out_buf_cur.get_mut();
    let data_length: Length = out_buf.len().into();
""", """    item.to_writer(&mut tmp_writer, ctx)?;
    let _ = tmp_writer.finalize();
    drop(tmp_writer);

    // get the length of it
    let out_buf = out_buf_cur.into_inner();
    let data_length = Length::from(out_buf.len());
""")]),
("read-string-match", ["P16","P04"], [("utils.rs", """    String::from_utf8(value).map_err(|err| {
        DekuError::Parse(Cow::Owned(
            format!("Could not parse bytes into string {:?}", err).to_owned(),
        ))
    })""", """    match String::from_utf8(value) {
        Ok(text) => Ok(text),
        Err(err) => Err(DekuError::Parse(Cow::Owned(format!(
            "Could not parse bytes into string {:?}",
            err
        )))),
    }""")]),
("write-string-resize", ["P16"], [("utils.rs", """    let mut bytes = [0u8; N];

    let max_index = cmp::min(value.len(), N);
    bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
""", """    let mut bytes = value.as_bytes().to_vec();
    bytes.resize(N, 0);
""")]),
("write-string-ref", ["P16"], [("utils.rs", """    let max_index = cmp::min(value.len(), N);
    bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
""", """    let source = value.as_bytes();
    let len = source.len().min(N);
    bytes[..len].copy_from_slice(&source[..len]);
""")]),
("write-string-zip", ["P16"], [("utils.rs", """    let max_index = cmp::min(value.len(), N);
    bytes[0..max_index].clone_from_slice(&value.as_bytes()[0..max_index]);
""", """    for (target, source) in bytes.iter_mut().zip(value.bytes()) {
        *target = source;
    }
""")]),
("pad-rest-divmod", ["P05"], [("utils.rs", """    let read_whole_byte = (bits_read % 8) == 0;
    let idx = if read_whole_byte {
        bits_read / 8
    } else {
        (bits_read - (bits_read % 8)) / 8
    };
    (&rest.0[idx..], bits_read % 8)""", """    let (idx, offset) = (bits_read / 8, bits_read % 8);
    (&rest.0[idx..], offset)""")]),
("pad-rest-shift", ["P05"], [("utils.rs", """    let read_whole_byte = (bits_read % 8) == 0;
    let idx = if read_whole_byte {
        bits_read / 8
    } else {
        (bits_read - (bits_read % 8)) / 8
    };
    (&rest.0[idx..], bits_read % 8)""", """    let (bytes, bits) = (bits_read >> 3, bits_read & 7);
    let (_, unread) = rest.0.split_at(bytes);
    (unread, bits)""")]),
("query-not-empty", ["P08","P12","P17"], [("app/query.rs", """            mask_present: mask.len() > 0,
            max_errors,
            length: value.len().into(),""", """            mask_present: !mask.is_empty(),
            max_errors,
            length: Length::from(value.len()),"""), ("app/query.rs", """    #[deku(bits = 1, update = "self.mask.len() > 0", pad_bits_after = "1")]
    mask_present: bool,

    // TODO: is this bitsize correct?
    #[deku(bits = 3)]""", """    #[deku(bits = 1, update = "!self.mask.is_empty()")]
    mask_present: bool,

    // TODO: is this bitsize correct?
    #[deku(bits = 3, pad_bits_before = "1")]""")]),
("enum-reorder", ["P14","P08","P04"], [("app/query.rs", """    #[deku(id = "3")]
    LessThanOrEqual,
    #[deku(id = "4")]
    GreaterThan,""", """    #[deku(id = "4")]
    GreaterThan,
    #[deku(id = "3")]
    LessThanOrEqual,"""), ("file/mod.rs", """    #[deku(id = "FileId::DllConfig")]
    DllConfig(DllConfig),

    #[deku(id = "FileId::DllStatus")]
    DllStatus(DllStatus),
""", """    #[deku(id = "FileId::DllStatus")]
    DllStatus(DllStatus),

    #[deku(id = "FileId::DllConfig")]
    DllConfig(DllConfig),
""")]),
("phy-new-local", ["P17","P11"], [("file/phy_status.rs", """        Self {
            up_time,""", """        let channel_status_list_length = channel_status.len() as u8;

        Self {
            up_time,"""), ("file/phy_status.rs", "            channel_status_list_length: channel_status.len() as u8,\n", "            channel_status_list_length,\n")]),
("addressee-new-types", ["P17","P09"], [("network/addressee.rs", """    pub fn new(address: Address, nls_state: NlsState, access_class: AccessClass) -> Self {
        Self {
            address_type: address.deku_id().unwrap(),
            nls_method: nls_state.deku_id().unwrap(),
            access_class,
            address,
            nls_state,
        }
    }""", """    pub fn new(address: Address, nls_state: NlsState, access_class: AccessClass) -> Self {
        let (address_type, nls_method) = Self::types_of(&address, &nls_state);
        Self {
            address_type,
            nls_method,
            access_class,
            address,
            nls_state,
        }
    }

    #[cfg(not(feature = "_wizzilab"))]
    fn types_of(address: &Address, nls_state: &NlsState) -> (AddressType, NlsMethod) {
        let address_type = match address {
            Address::NbId(_) => AddressType::NbId,
            Address::NoId => AddressType::NoId,
            Address::UId(_) => AddressType::UId,
            Address::VId(_) => AddressType::VId,
        };
        (address_type, nls_state.deku_id().unwrap())
    }""")]),
("length-chain", ["P06"], [("app/operation/length.rs", """        let num_extra_bits = Length::required_bits(*value).checked_sub(6).unwrap_or(0);

        let mut num_extra_bytes = num_extra_bits.checked_div(u8::BITS).unwrap_or(0);
        if (num_extra_bits % u8::BITS) > 0 {
            num_extra_bytes += 1;
        }
""", """        let num_extra_bits = Self::required_bits(*value).saturating_sub(6);
        let num_extra_bytes = (num_extra_bits + u8::BITS - 1) / u8::BITS;
""")]),
("length-divceil", ["P06"], [("app/operation/length.rs", """        let num_extra_bits = Length::required_bits(*value).checked_sub(6).unwrap_or(0);

        let mut num_extra_bytes = num_extra_bits.checked_div(u8::BITS).unwrap_or(0);
        if (num_extra_bits % u8::BITS) > 0 {
            num_extra_bytes += 1;
        }
""", """        let num_extra_bits = Self::required_bits(*value).saturating_sub(6);
        let num_extra_bytes = num_extra_bits.div_ceil(u8::BITS);
"""), ("app/operation/length.rs", """        value.checked_ilog2().unwrap_or(0) + 1""", """        match value {
            0 => 1,
            _ => u32::BITS - value.leading_zeros(),
        }""")]),
("at-end-order", ["P02","P05"], [("app/command.rs", """        let bits_read = reader.bits_read;
        if reader.end() {
            return Ok(true);
        }

        // `Reader::end` buffers and counts the byte it has peeked at, so give that back
        reader
            .seek_relative(-1)
            .map_err(|err| DekuError::Io(err.kind()))?;
        reader.bits_read = bits_read;
        Ok(false)""", """        let before = reader.bits_read;
        let end = reader.end();
        if !end {
            // `Reader::end` buffers and counts the byte it has peeked at, so give that back
            reader
                .seek_relative(-1)
                .map_err(|err| DekuError::Io(err.kind()))?;
            reader.bits_read = before;
        }
        Ok(end)""")]),
("dropper-fn", ["P16"], [("utils.rs", """    Ok(data.map(|elem: MaybeUninit<T>| unsafe { elem.assume_init() }))""", """    let values = data.map(|elem| unsafe { elem.assume_init() });
    Ok(values)""")]),
("custom-partialeq-order", ["P13"], [("app/command.rs", """        for action in self.actions.iter() {
            if let Action::RequestTag(operation) = action {
                return Some(operation);
            }
        }
        None""", """        self.actions
            .iter()
            .filter_map(|action| match action {
                Action::RequestTag(operation) => Some(operation),
                _ => None,
            })
            .next()"""), ("app/command.rs", """        for action in self.actions.iter() {
            if let Action::ResponseTag(operation) = action {
                return Some(operation);
            }
        }
        None""", """        let mut actions = self.actions.iter();
        while let Some(action) = actions.next() {
            if let Action::ResponseTag(operation) = action {
                return Some(operation);
            }
        }
        None""")]),
]

"""name -> (checks that look at the edited code, [(file, old, new)])."""
R, W, C, D, DR = "smdiff-reader/src/lib.rs", "smdiff-writer/src/lib.rs", "smdiff-common/src/lib.rs", "smdiff-decoder/src/lib.rs", "smdiff-decoder/src/reader.rs"
EDITS = {}
EDITS["writer-sums-first"] = (["C10", "C16"], [
    (W, "    let mut last_d_addr = 0;\n    let mut last_o_addr = 0;\n    let mut total_content_len = 0;\n", "    let mut last_d_addr = 0;\n    let mut last_o_addr = 0;\n    let total_content_len: usize = ops.iter().map(|op| op.oal() as usize).sum();\n"),
    (W, "        total_content_len += op.oal() as usize;\n", "")])
EDITS["writer-helper"] = (["C10", "C16"], [
    (W, "    if header.output_size as usize > MAX_WIN_SIZE{\n        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, \"Output size is greater than MAX_WIN_SIZE\"));\n    }\n    if ops.len() != header.num_operations as usize {\n        return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, \"Number of operations does not match header\"));\n    }\n", "    check_limits(ops, header)?;\n"),
    (W, "fn write_op_byte_and_size<", "fn check_limits<A>(ops: &[Op<A>], header: &SectionHeader) -> std::io::Result<()> {\n    let bad = |m: &'static str| Err(std::io::Error::new(std::io::ErrorKind::InvalidData, m));\n    match (header.output_size as usize <= MAX_WIN_SIZE, header.num_operations as usize == ops.len()) {\n        (true, true) => Ok(()),\n        (false, _) => bad(\"Output size is greater than MAX_WIN_SIZE\"),\n        _ => bad(\"Number of operations does not match header\"),\n    }\n}\n\nfn write_op_byte_and_size<")])
EDITS["writer-while"] = (["C10", "C16"], [
    (W, "    for op in ops {\n        if let Op::Add(a) = op {\n            if a.bytes().len() > MAX_INST_SIZE {", "    let mut i = 0;\n    while i < ops.len() {\n        let op = &ops[i];\n        i += 1;\n        if let Op::Add(a) = op {\n            if a.bytes().len() > MAX_INST_SIZE {")])
EDITS["writer-no-slices"] = (["C10", "C16"], [
    (W, "        for slice in add_bytes_slices {\n            writer.write_all(slice)?;\n        }", "        for op in ops {\n            if let Op::Add(a) = op {\n                writer.write_all(a.bytes())?;\n            }\n        }"),
    (W, "                        add_bytes_written += slice.len();\n                        add_bytes_slices.push(slice)", "                        add_bytes_written += slice.len();"),
    (W, "    let mut add_bytes_slices = Vec::new();\n", "")])
EDITS["sections-fold"] = (["C15"], [
    (W, "    for (end_index, op) in ops.iter().enumerate() {\n        // Check if adding", "    for end_index in 0..ops.len() {\n        let op = &ops[end_index];\n        // Check if adding"),
    (W, "        if op.is_add() {\n            num_add_bytes += op_size;\n        }\n        output_size += op_size;", "        output_size += op_size;\n        num_add_bytes += match op { Op::Add(_) => op_size, _ => 0 };")])
EDITS["sections-header-fn"] = (["C15"], [
    (W, "SectionHeader{ num_operations: (end_index-start_index) as u32, num_add_bytes, output_size, compression_algo: 0, format: Format::Interleaved, more_sections: true }", "SectionHeader::new((end_index-start_index) as u32, num_add_bytes, output_size).set_more_sections(true)"),
    (W, "    result.push((&ops[start_index..],SectionHeader{ num_operations: (ops.len()-start_index) as u32,", "    let rest = &ops[start_index..];\n    result.push((rest,SectionHeader{ num_operations: rest.len() as u32,")])
EDITS["sections-split-at"] = (["C15"], [
    (W, "    let mut start_index = 0;\n\n    for", "    let mut start_index = 0;\n    let mut left = ops;\n\n    for"),
    (W, "            result.push((&ops[start_index..end_index],", "            let (group, tail) = left.split_at(end_index - start_index);\n            left = tail;\n            result.push((group,"),
    (W, "    result.push((&ops[start_index..],", "    result.push((left,")])
EDITS["header-reader-order"] = (["C05", "C11", "C08"], [
    (R, "    let more_sections = (header_byte & SECTION_CONTINUE_BIT) == SECTION_CONTINUE_BIT;\n    let num_operations", "    let more_sections = header_byte & SECTION_CONTINUE_BIT != 0;\n    let num_operations"),
    (R, "    let num_add_bytes = if format.is_segregated() {\n        read_header_u32(reader)?\n    } else {\n        0\n    };\n    let read_size = read_header_u32(reader)?;\n    let output_size = if format.is_segregated(){\n        num_add_bytes.checked_add(read_size).ok_or_else(|| std::io::Error::new(std::io::ErrorKind::InvalidData, \"Section output size overflows\"))?\n    }else{\n        read_size\n    };", "    let (num_add_bytes, output_size) = match format {\n        Format::Segregated => {\n            let adds = read_header_u32(reader)?;\n            let rest = read_header_u32(reader)?;\n            match adds.checked_add(rest) {\n                Some(n) => (adds, n),\n                None => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, \"Section output size overflows\")),\n            }\n        }\n        Format::Interleaved => (0, read_header_u32(reader)?),\n    };")])
EDITS["read-ops-while"] = (["C05", "C08", "C10"], [
    (R, "            for _ in 0..*num_operations {\n", "            let mut left = *num_operations;\n            while left > 0 {\n                left -= 1;\n")])
EDITS["read-ops-fill-loop"] = (["C05", "C08", "C10"], [
    (R, "            for i in add_idxs{\n                let op = op_buffer.get_mut(i).unwrap();\n                if let Op::Add(add) = op{\n                    reader.read_exact(&mut add.bytes)?;\n                }\n            }", "            for op in op_buffer[buffer_offset..].iter_mut() {\n                if let Op::Add(add) = op {\n                    reader.read_exact(&mut add.bytes)?;\n                }\n            }"),
    (R, "                    add_idxs.push(buffer_offset+i as usize);\n", ""),
    (R, "            let mut add_idxs = Vec::new();\n", ""),
    (R, "            for i in 0..*num_operations {", "            for _ in 0..*num_operations {")])
EDITS["read-op-helper"] = (["C05", "C08", "C10"], [
    (R, "    let size = match size {\n        Size::Done(size) => size as u16,\n        Size::U8And62 => read_u8(reader)? as u16 + 62,\n        Size::U16 => read_u16(reader)?,\n    };\n", "    let size = read_size(reader, size)?;\n"),
    (R, "/// A reader that will keep reading", "fn read_size<R: std::io::Read>(reader: &mut R, size: Size) -> std::io::Result<u16> {\n    Ok(match size {\n        Size::U16 => read_u16(reader)?,\n        Size::U8And62 => 62 + u16::from(read_u8(reader)?),\n        Size::Done(size) => size.into(),\n    })\n}\n\n/// A reader that will keep reading")])
EDITS["iter-match"] = (["C05", "C08"], [
    (DR, "        self.ops.clear();\n        if let Err(e) = self.read_ops(&mut header){\n            self.done = true;\n            return Some(Err(e));\n        }\n        Some(Ok((&self.ops,header)))", "        match self.read_ops(&mut header) {\n            Ok(()) => Some(Ok((self.ops.as_slice(), header))),\n            Err(e) => {\n                self.done = true;\n                Some(Err(e))\n            }\n        }")])
EDITS["algo-match"] = (["C05", "C08"], [
    (DR, "        }else if header.compression_algo == 0 {\n            read_ops_no_comp(&mut self.source, header,&mut self.ops)?;\n        }else{\n            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!(\"Unknown secondary compression algorithm: {}\", header.compression_algo)));\n        }", "        }else {\n            match header.compression_algo {\n                0 => read_ops_no_comp(&mut self.source, header,&mut self.ops)?,\n                n => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!(\"Unknown secondary compression algorithm: {}\", n))),\n            }\n        }")])
EDITS["apply-helper"] = (["C05"], [
    (D, "                        let start_pos = *cur_o_pos;\n                        cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;\n                        let len = copy.len as usize;\n                        cur_o.read_exact(&mut copy_buffer[..len])?;\n                        cur_o.seek(std::io::SeekFrom::Start(start_pos as u64))?;\n                        cur_o.write_all(&copy_buffer[..len])?;\n                        *cur_o_pos += len;", "                        let len = copy.len as usize;\n                        let buf = &mut copy_buffer[..len];\n                        cur_o.seek(std::io::SeekFrom::Start(copy.addr))?;\n                        cur_o.read_exact(buf)?;\n                        emit(cur_o, cur_o_pos, buf)?;"),
    (D, "fn apply_ops<", "fn emit<W: Write + Seek>(out: &mut W, pos: &mut usize, bytes: &[u8]) -> std::io::Result<()> {\n    out.seek(std::io::SeekFrom::Start(*pos as u64))?;\n    out.write_all(bytes)?;\n    *pos += bytes.len();\n    Ok(())\n}\n\nfn apply_ops<"),
    ])
EDITS["apply-longest"] = (["C05"], [
    (D, "    let mut copy_buffer = vec![0u8;MAX_INST_SIZE];", "    let longest = ops.iter().filter_map(|op| op.take_copy()).map(|c| c.len).max().unwrap_or(0) as usize;\n    let mut copy_buffer = vec![0u8;longest.max(smdiff_common::MAX_RUN_LEN as usize)];")])
EDITS["uvarint-loop"] = (["C12", "C05"], [
    (C, "    while n >= 0x80 {\n        buf[i] = ((n & 0x7F) | 0x80) as u8;\n        n >>= 7;\n        i += 1;\n    }\n    buf[i] = n as u8;\n    writer.write_all(&buf[..=i])", "    loop {\n        let low = (n & 0x7F) as u8;\n        n >>= 7;\n        if n == 0 {\n            buf[i] = low;\n            break;\n        }\n        buf[i] = low | 0x80;\n        i += 1;\n    }\n    writer.write_all(&buf[..i + 1])")])
EDITS["uvarint-read"] = (["C12", "C05"], [
    (C, "        result |= ((byte & 0x7F) as u64) << shift;\n        if byte & 0x80 == 0 {\n            break;\n        }\n        shift += 7;\n    }\n    Ok(result)", "        result += u64::from(byte & 0x7F) << shift;\n        if byte < 0x80 {\n            return Ok(result);\n        }\n        shift += 7;\n    }")])
EDITS["zigzag"] = (["C12"], [
    (C, "    ((n << 1) ^ (n >> 63)) as u64", "    let sign = (n >> 63) as u64;\n    ((n as u64) << 1) ^ sign")])
EDITS["size-routine-if"] = (["C10", "C05"], [
    (C, "    match size {\n        1..=62 => Size::Done(size as u8),\n        63 => Size::U8And62,\n        _ => Size::U16,\n    }", "    if size >= 1 && size <= u16::from(MAX_RUN_LEN) {\n        Size::Done(size as u8)\n    } else if size == 63 {\n        Size::U8And62\n    } else {\n        Size::U16\n    }")])
EDITS["apply-fill"] = (["C05", "C13"], [
    (D, "                        let start_pos = *cur_o_pos;\n                        cur_o.seek(std::io::SeekFrom::Start(copy.addr as u64))?;\n                        let len = copy.len as usize;\n                        cur_o.read_exact(&mut copy_buffer[..len])?;\n                        cur_o.seek(std::io::SeekFrom::Start(start_pos as u64))?;\n                        cur_o.write_all(&copy_buffer[..len])?;\n                        *cur_o_pos += len;", "                        let piece = &mut copy_buffer[..usize::from(copy.len)];\n                        cur_o.seek(std::io::SeekFrom::Start(copy.addr))?;\n                        cur_o.read_exact(piece)?;\n                        cur_o.seek(std::io::SeekFrom::Start(*cur_o_pos as u64))?;\n                        cur_o.write_all(piece)?;\n                        *cur_o_pos += piece.len();")])
EDITS["apply-helper"] = (["C05", "C13"], [
    (D, "                        src.seek(std::io::SeekFrom::Start(copy.addr))?;\n                        let len = copy.len as usize;\n                        src.read_exact(&mut copy_buffer[..len])?;\n                        cur_o.write_all(&copy_buffer[..len])?;\n                        *cur_o_pos += len;", "                        let piece = fetch(*src, copy, &mut copy_buffer)?;\n                        cur_o.write_all(piece)?;\n                        *cur_o_pos += piece.len();"),
    (D, "#[cfg(test)]\nmod tests", "fn fetch<'a, R: Read + Seek>(from: &mut R, copy: &smdiff_common::Copy, buf: &'a mut [u8]) -> std::io::Result<&'a [u8]> {\n    from.seek(std::io::SeekFrom::Start(copy.addr))?;\n    let piece = &mut buf[..copy.len as usize];\n    from.read_exact(piece)?;\n    Ok(piece)\n}\n\n#[cfg(test)]\nmod tests")])
EDITS["apply-run-vec"] = (["C05", "C13"], [
    (D, "                copy_buffer[..len].fill(run.byte);\n                cur_o.write_all(&copy_buffer[..len])?;", "                let bytes = vec![run.byte; len];\n                cur_o.write_all(&bytes)?;")])
EDITS["apply-chunks"] = (["C05", "C13"], [
    (D, "                        let len = copy.len as usize;\n                        src.read_exact(&mut copy_buffer[..len])?;\n                        cur_o.write_all(&copy_buffer[..len])?;\n                        *cur_o_pos += len;", "                        let mut left = copy.len as usize;\n                        while left > 0 {\n                            let n = left.min(4096);\n                            src.read_exact(&mut copy_buffer[..n])?;\n                            cur_o.write_all(&copy_buffer[..n])?;\n                            left -= n;\n                        }\n                        *cur_o_pos += copy.len as usize;")])
EDITS["apply-pos-end"] = (["C05", "C13"], [
    (D, "    for op in ops {\n        match op {\n            smdiff_common::Op::Add(add)", "    let begin = *cur_o_pos;\n    let mut done = 0usize;\n    for op in ops {\n        debug_assert!(*cur_o_pos >= begin);\n        done += op.oal() as usize;\n        match op {\n            smdiff_common::Op::Add(add)"),
    (D, "        }\n    }\n\n    Ok(())\n}\n\n#[cfg(test)]", "        }\n    }\n    let _ = done;\n    Ok(())\n}\n\n#[cfg(test)]"),
    (D, "use smdiff_common::MAX_INST_SIZE;", "use smdiff_common::MAX_INST_SIZE;\n#[allow(unused_imports)]\nuse smdiff_common::AddOp;")])
EDITS["decoder-iter-match"] = (["C05", "C07", "C08"], [
    (DR, "        let mut header = match self.read_header()?{\n            Ok(h) => h,\n            Err(e) => {\n                self.done = true; //the position in the source is now unknown\n                return Some(Err(e));\n            }\n        };\n        self.ops.clear();\n        if let Err(e) = self.read_ops(&mut header){\n            self.done = true;\n            return Some(Err(e));\n        }\n        Some(Ok((&self.ops,header)))", "        let res = self.advance()?;\n        self.done |= res.is_err();\n        Some(res.map(|h| (self.ops.as_slice(), h)))"),
    (DR, "    fn read_header(&mut self)", "    fn advance(&mut self) -> Option<std::io::Result<SectionHeader>> {\n        let mut header = match self.read_header()? {\n            Ok(h) => h,\n            Err(e) => return Some(Err(e)),\n        };\n        Some(match self.read_ops(&mut header) {\n            Ok(()) => Ok(header),\n            Err(e) => Err(e),\n        })\n    }\n    fn read_header(&mut self)")])
EDITS["decoder-algo-match"] = (["C05", "C07", "C08"], [
    (DR, "        if header.compression_algo == 1 {", "        match header.compression_algo {\n          1 => {"),
    (DR, "        }else if header.compression_algo == 2 {", "          }\n          2 => {"),
    (DR, "        }else if header.compression_algo == 3 {", "          }\n          3 => {"),
    (DR, "        }else if header.compression_algo == 0 {\n            read_ops_no_comp(&mut self.source, header,&mut self.ops)?;\n        }else{\n            return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!(\"Unknown secondary compression algorithm: {}\", header.compression_algo)));\n        }\n        if !header.more_sections{\n            self.done = true;\n        }", "          }\n          0 => read_ops_no_comp(&mut self.source, header,&mut self.ops)?,\n          other => return Err(std::io::Error::new(std::io::ErrorKind::InvalidData, format!(\"Unknown secondary compression algorithm: {}\", other))),\n        }\n        self.done = !header.more_sections;")])
EDITS["reader-iter-shared"] = (["C05", "C07", "C08"], [
    (R, "        let mut op_buffer = Vec::new();\n        let header = match read_section(&mut self.source,&mut op_buffer){\n            Ok(v) => v,\n            Err(e) => {\n                self.done = true; //the position in the source is now unknown\n                return Some(Err(e));\n            }\n        };\n        if !header.more_sections{\n            self.done = true;\n        }\n        Some(Ok((op_buffer,header)))", "        Some(match self.next_borrowed()? {\n            Ok((ops, header)) => Ok((ops.to_vec(), header)),\n            Err(e) => Err(e),\n        })")])
EW, EL, EO, EE = "smdiff-encoder/src/writer.rs", "smdiff-encoder/src/lib.rs", "smdiff-encoder/src/op_maker.rs", "smdiff-encoder/src/encoder.rs"
EDITS["section-clear-first"] = (["C14"], [
    (EW, "        sec_data_buffer.clear();\n    }else{", "    }else{"),
    (EW, "        write_section_header(&header, writer)?;\n        write_ops(seg_ops,&header,sec_data_buffer)?;", "        sec_data_buffer.clear();\n        write_section_header(&header, writer)?;\n        write_ops(seg_ops,&header,sec_data_buffer)?;"),
    (EW, "                sec_data_buffer = crsr.into_inner();\n", ""), (EW, "    mut sec_data_buffer: &mut Vec<u8>)", "    sec_data_buffer: &mut Vec<u8>)")])
EDITS["section-if-let"] = (["C14"], [
    (EW, "    Ok(if sec_comp.is_some() {\n        let comp = sec_comp.clone().unwrap();\n", "    if let Some(comp) = sec_comp.clone() {\n"),
    (EW, "    }else{\n        write_section_header(&header, writer)?;\n        write_ops(seg_ops,&header,writer)?;\n    })\n", "        return Ok(());\n    }\n    write_section_header(&header, writer)?;\n    write_ops(seg_ops,&header,writer)\n"),
    (EW, "                a.set_pledged_src_size(Some(sec_data_buffer.len() as u64))?;\n                a.include_contentsize(true)?;\n", "                let n = sec_data_buffer.len();\n                a.set_pledged_src_size(Some(n as u64))?;\n                a.include_contentsize(true)?;\n")])
EDITS["section-own-buffer"] = (["C14"], [
    (EW, "                a.write_all(&*sec_data_buffer)?;\n                a.into_inner()?;", "                for part in sec_data_buffer.chunks(4096) {\n                    a.write_all(part)?;\n                }\n                a.into_inner()?;")])
EM = "smdiff-merger/src/transcoder.rs"
EDITS["adds-chunks"] = (["C17"], [
    (EO, "    let mut processed = 0;\n    loop{\n        if processed == total_len{\n            break;\n        }\n        let to_add = total_len - processed;\n        let chunk_size = to_add.min(MAX_INST_SIZE as usize);\n        let op = crate::Add{bytes: &bytes[processed..processed+chunk_size]};\n        processed += chunk_size;\n        output.push(Op::Add(op));\n    }", "    for part in bytes.chunks(MAX_INST_SIZE) {\n        output.push(Op::Add(crate::Add{bytes: part}));\n    }"),
    (EM, "    let mut processed = 0;\n    loop{\n        if processed == total_len{\n            break;\n        }\n        let to_add = total_len - processed;\n        let chunk_size = to_add.min(MAX_INST_SIZE as usize);\n        let op = Add{bytes: bytes[processed..processed+chunk_size].to_vec()};\n        processed += chunk_size;\n        output.push(Op::Add(op));\n    }", "    let mut rest = &bytes[..];\n    while !rest.is_empty() {\n        let (head, tail) = rest.split_at(rest.len().min(MAX_INST_SIZE));\n        output.push(Op::Add(Add{bytes: head.to_vec()}));\n        rest = tail;\n    }")])
EDITS["copies-countdown"] = (["C17"], [
    (EO, "    let mut processed = 0;\n    let mut addr = start as u64;\n    while processed < len {\n        let remaining = len - processed;\n        let chunk_size = MAX_INST_SIZE.min(remaining);\n        let op = Op::Copy(Copy{ src, addr, len: chunk_size as u16 });\n        output.push(op);\n        addr += chunk_size as u64;\n        processed += chunk_size;\n    };", "    let end = start + len;\n    let mut at = start;\n    while at != end {\n        let n = (end - at).min(MAX_INST_SIZE);\n        output.push(Op::Copy(Copy{ src, addr: at as u64, len: n as u16 }));\n        at += n;\n    }")])
EDITS["runs-helper"] = (["C17"], [
    (EO, "        let mut processed = 0;\n        while processed < len {\n            let remaining = len - processed;\n            let chunk_size = (MAX_RUN_LEN as usize).min(remaining);\n            let op = Op::Run(smdiff_common::Run{byte, len: chunk_size as u8});\n            output.push(op);\n            processed += chunk_size;\n        };", "        short_runs(byte, len, output);"),
    (EO, "fn make_run_ops(", "fn short_runs(byte: u8, mut left: usize, output: &mut Vec<Op>) {\n    while left > MAX_RUN_LEN as usize {\n        output.push(Op::Run(smdiff_common::Run{byte, len: MAX_RUN_LEN}));\n        left -= MAX_RUN_LEN as usize;\n    }\n    if left > 0 {\n        output.push(Op::Run(smdiff_common::Run{byte, len: left as u8}));\n    }\n}\nfn make_run_ops("),
    (EM, "        output.extend(std::iter::repeat_with(|| Op::Run(smdiff_common::Run{byte, len: MAX_RUN_LEN})).take(3));\n\n        let copy_bytes = len - COPY_LIMIT;\n        let mut processed = 0;\n        let mut max_copy_size = COPY_LIMIT;\n        while processed < copy_bytes{\n            let copy_size = max_copy_size.min(copy_bytes - processed).min(MAX_INST_SIZE);\n            let op = Op::Copy(smdiff_common::Copy{src: CopySrc::Output, addr: run_start_pos as u64, len: copy_size as u16});\n            output.push(op);\n            processed += copy_size;\n            max_copy_size += copy_size;\n        }", "        for _ in 0..3 {\n            output.push(Op::Run(smdiff_common::Run{byte, len: MAX_RUN_LEN}));\n        }\n        let mut done = COPY_LIMIT;\n        while done < len {\n            let copy_size = done.min(len - done).min(MAX_INST_SIZE);\n            output.push(Op::Copy(smdiff_common::Copy{src: CopySrc::Output, addr: run_start_pos as u64, len: copy_size as u16}));\n            done += copy_size;\n        }")])
EDITS["retry-interrupted"] = (["C04"], [
    (DR, "    match section.read(&mut [0u8;1])? {\n        0 => Ok(()),", "    let n = loop {\n        match section.read(&mut [0u8;1]) {\n            Ok(n) => break n,\n            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,\n            Err(e) => return Err(e),\n        }\n    };\n    match n {\n        0 => Ok(()),")])
EDITS["retry-interrupted2"] = (["C04"], [
    (DR, "    match section.read(&mut [0u8;1])? {\n        0 => Ok(()),", "    let n = loop {\n        match section.read(&mut [0u8;1]) {\n            Err(e) if matches!(e.kind(), std::io::ErrorKind::Interrupted) => (),\n            r => break r?,\n        }\n    };\n    match n {\n        0 => Ok(()),")])
ML = "smdiff-merger/src/lib.rs"
VL = "smdiff-vcdiff/src/lib.rs"
EDITS["and-then"] = (["C04", "C16"], [
    (VL, "    write_section_header(&header,&mut writer)?;\n    write_ops(&cur_win, &header,&mut writer)?;\n    Ok(())", "    write_section_header(&header,&mut writer).and_then(|()| write_ops(&cur_win, &header,&mut writer))"),
    (ML, "        for (seg_ops,mut header) in make_sections(&self.0, max_win_size){\n            header.format = format;\n            section_writer(&sec_comp, header, sink, seg_ops, &mut sec_data_buffer)?;\n        }\n        Ok(())", "        make_sections(&self.0, max_win_size).into_iter().try_for_each(|(seg_ops, mut header)| {\n            header.format = format;\n            section_writer(&sec_comp, header, sink, seg_ops, &mut sec_data_buffer)\n        })")])
EDITS["extract-collect"] = (["C04"], [
    (ML, "    while let Some(res) = reader.next() {\n        let (insts,_output_size) = res?;\n        for inst in insts{", "    let sections = reader.by_ref().collect::<std::io::Result<Vec<_>>>()?;\n    for (insts, _header) in sections {\n        for inst in insts{")])
EDITS["extract-match"] = (["C04"], [
    (ML, "        let (insts,_output_size) = res?;\n", "        let insts = match res {\n            Ok((ops, _)) => ops,\n            Err(e) => {\n                drop(output);\n                return Err(e);\n            }\n        };\n")])
EDITS["saved-error"] = (["C04", "C13"], [
    (D, "        let (ops,_header) = res?;\n        apply_ops(ops, &mut src, sink, &mut cur_o_pos)?;\n\n    }\n    Ok(())\n}\n\n/// Applies", "        let res = res.and_then(|(ops, _header)| apply_ops(ops, &mut src, sink, &mut cur_o_pos));\n        if res.is_err() {\n            return res;\n        }\n    }\n    Ok(())\n}\n\n/// Applies")])
MER = ["C21", "C23", "C24", "C26"]
EDITS["lookup-partition-point"] = (MER, [
    (ML, "    let inst = ops.binary_search_by(|probe|{\n        let end = probe.0 + probe.1.oal() as u64;\n        if (probe.0..end).contains(&o_pos){\n            return std::cmp::Ordering::Equal\n        }else if probe.0 > o_pos {\n            return std::cmp::Ordering::Greater\n        }else{\n            return std::cmp::Ordering::Less\n        }\n    });\n    if let Ok(idx) = inst {\n        Some(idx)\n    }else {\n        None\n    }",
     "    let idx = ops.partition_point(|probe| probe.0 + probe.1.oal() as u64 <= o_pos);\n    (idx < ops.len() && ops[idx].0 <= o_pos).then_some(idx)")])
EDITS["lookup-position"] = (MER, [
    (ML, "    let inst = ops.binary_search_by(|probe|{\n        let end = probe.0 + probe.1.oal() as u64;\n        if (probe.0..end).contains(&o_pos){\n            return std::cmp::Ordering::Equal\n        }else if probe.0 > o_pos {\n            return std::cmp::Ordering::Greater\n        }else{\n            return std::cmp::Ordering::Less\n        }\n    });\n    if let Ok(idx) = inst {\n        Some(idx)\n    }else {\n        None\n    }",
     "    ops.iter().position(|(at, op)| (*at..*at + u64::from(op.oal())).contains(&o_pos))")])
EDITS["slice-filter"] = (MER, [
    (ML, "        let cur_inst_end = o_start + inst_len as u64;\n        let mut cur_inst = inst.clone();\n        let op_start = if &start > o_start {\n            let skip = start - o_start;\n            cur_inst.skip(skip as u32);\n            start\n        }else{*o_start};\n        if end_pos < cur_inst_end {\n            let trunc = cur_inst_end - end_pos;\n            cur_inst.trunc(trunc as u32);\n        }",
     "        let cur_inst_end = o_start + inst_len as u64;\n        let mut cur_inst = inst.clone();\n        if let Some(over) = cur_inst_end.checked_sub(end_pos) {\n            if over > 0 {\n                cur_inst.trunc(over as u32);\n            }\n        }\n        let skip = start.saturating_sub(*o_start);\n        let op_start = o_start + skip;\n        if skip != 0 {\n            cur_inst.skip(skip as u32);\n        }")])
EDITS["merge-early"] = (MER, [
    (ML, "        if stats.has_copy(){\n            predecessor_patch = try_deref_copy_o(predecessor_patch)?;\n        }", "        if stats.copy_o_cnt != 0 {\n            predecessor_patch = try_deref_copy_o(predecessor_patch)?;\n        }")])
EDITS["merge-expand-flat"] = (MER, [
    (ML, "    sorted_inserts.sort_by_key(|k| k.0);\n\n    target.reverse();", "    sorted_inserts.sort_by(|a, b| a.0.cmp(&b.0));\n    let mut target: Vec<SparseOp> = target.into_iter().rev().collect();"),
    (ML, "    mut target: Vec<SparseOp>,", "    target: Vec<SparseOp>,")])
EDITS["merge-expand-iter"] = (MER, [
    (ML, "    let mut sorted_inserts = inserts;\n    sorted_inserts.sort_by_key(|k| k.0);\n\n    target.reverse();\n    // Trackers for the current position in the original vector and the inserts.\n    let mut cur_idx = 0;\n    let mut cur_o_pos = 0;\n    for (insert_pos, insert_vec) in sorted_inserts {\n        // Copy elements from the current position up to the insert position.\n        while cur_idx < insert_pos {\n            match target.pop() {\n                Some(mut elem) => {\n                    let len = elem.1.oal();\n                    elem.0 = cur_o_pos;\n                    cur_o_pos += len as u64;\n                    result.push(converter(elem));\n                    cur_idx += 1;\n                }\n                None => break,\n            }\n        }\n        // Insert the new elements.\n        for mut elem in insert_vec {\n            let len = elem.1.oal();\n            elem.0 = cur_o_pos;\n            cur_o_pos += len as u64;\n            result.push(converter(elem));\n        }\n        target.pop();//we get rid of the expanded element.\n        cur_idx += 1;\n    }\n\n    // After processing all inserts, copy any remaining elements from the original vector.\n    while let Some(mut elem) = target.pop() {\n        let len = elem.1.oal();\n        elem.0 = cur_o_pos;\n        cur_o_pos += len as u64;\n        result.push(converter(elem));\n    }\n    result",
     "    let mut inserts = inserts.into_iter().peekable(); //already in order\n    let mut at = 0;\n    for (i, elem) in target.into_iter().enumerate() {\n        let new = match inserts.peek() {\n            Some((p, _)) if *p == i => inserts.next().unwrap().1,\n            _ => vec![elem],\n        };\n        for (_, op) in new {\n            let len = u64::from(op.oal());\n            result.push(converter((at, op)));\n            at += len;\n        }\n    }\n    result"),
    (ML, "    mut target: Vec<SparseOp>,", "    target: Vec<SparseOp>,")])
EDITS["extract-if-let"] = (MER, [
    (ML, "                smdiff_common::Op::Run(_) => {\n                    output.push((o_pos_start,inst));\n                    stats.run(oal_len);\n                },", "                smdiff_common::Op::Run(_) => stats.run(oal_len),"),
    (ML, "                    output.push((o_pos_start,inst));\n                },\n                smdiff_common::Op::Add(_) => {\n                    output.push((o_pos_start,inst));\n                    stats.add(oal_len);\n                },\n            }\n            o_pos_start", "                },\n                smdiff_common::Op::Add(_) => stats.add(oal_len),\n            }\n            output.push((o_pos_start, inst));\n            o_pos_start")])
EDITS["deref-fold"] = (MER, [
    (ML, "                for (_,resloved_op) in resolved {\n                    let o_pos_start = cur_o_pos;\n                    cur_o_pos += resloved_op.oal() as u64;\n                    output.push((o_pos_start,resloved_op));\n                }", "                output.extend(resolved.into_iter().map(|(_, op)| {\n                    let at = cur_o_pos;\n                    cur_o_pos += op.oal() as u64;\n                    (at, op)\n                }));")])
EDITS["indices-filter"] = (MER, [
    (ML, "    for (i,(_,op)) in extract.iter().enumerate(){\n        match op {\n            Op::Copy(copy) if matches!(copy.src, smdiff_common::CopySrc::Dict) => {\n                dest.push(i+shift);\n            },\n            _ => (),\n        }\n    }", "    dest.extend(extract.iter().enumerate().filter_map(|(i, (_, op))| match op {\n        Op::Copy(c) if c.src == smdiff_common::CopySrc::Dict => Some(i + shift),\n        _ => None,\n    }));")])
EDITS["transcode-join-all"] = (["C17", "C26"], [
    (EM, "            if byte1 == byte2 {\n                *len1 += *len2;\n                *len2 = 0;\n            }\n            i += 1;", "            if *byte1 == *byte2 {\n                *len1 += std::mem::take(len2);\n            }\n            i += 1;")])
EDITS["transcode-filter"] = (["C17", "C26"], [
    (EM, "    for iop in ops {\n        match iop {\n            InnerOp::Add(bytes) if !bytes.is_empty() => make_add_ops(bytes, &mut out_ops),\n            InnerOp::Copy(copy) => out_ops.push(Op::Copy(copy)),\n            InnerOp::Run{byte, len,output_start_pos} if len>0 => make_run_ops(byte, len, output_start_pos,&mut out_ops),\n            _ => ()\n        }\n    }",
     "    ops.retain(|o| match o {\n        InnerOp::Add(b) => !b.is_empty(),\n        InnerOp::Run{len, ..} => *len != 0,\n        InnerOp::Copy(_) => true,\n    });\n    for iop in ops {\n        match iop {\n            InnerOp::Add(bytes) => make_add_ops(bytes, &mut out_ops),\n            InnerOp::Copy(copy) => out_ops.push(Op::Copy(copy)),\n            InnerOp::Run{byte, len,output_start_pos} => make_run_ops(byte, len, output_start_pos,&mut out_ops),\n        }\n    }")])
EDITS["transcode-loop"] = (["C26"], [
    (EM, "    let inners:Vec<InnerOp> = extract_patch_instructions(input)?.0.into_iter().map(|(out_addr,op)|\n        match op {\n            Op::Add(a) => InnerOp::Add(a.bytes.to_vec()),\n            Op::Copy(c) => InnerOp::Copy(c),\n            Op::Run(r) => InnerOp::Run{byte: r.byte, len: r.len as usize, output_start_pos: out_addr as usize},\n        }\n    ).collect();\n    Ok(inners)", "    let (ops, _) = extract_patch_instructions(input)?;\n    let mut inners = Vec::with_capacity(ops.len());\n    for (at, op) in ops {\n        inners.push(match op {\n            Op::Run(r) => InnerOp::Run{byte: r.byte, len: usize::from(r.len), output_start_pos: at as usize},\n            Op::Copy(c) => InnerOp::Copy(c),\n            Op::Add(Add { bytes }) => InnerOp::Add(bytes),\n        });\n    }\n    Ok(inners)")])
OM, EL = "smdiff-encoder/src/op_maker.rs", "smdiff-encoder/src/lib.rs"
EDITS["tr-midpoint"] = (["C18"], [(OM, "        let midpoint = two_p + (one_end - two_p) / 2;", "        let midpoint = (one_end + two_p) / 2;")])
EDITS["tr-retain"] = (["C18"], [(OM, "    for op in ops.into_iter().filter(|a|*a.len() > 0) {", "    ops.retain(|op| *op.len() != 0);\n    for op in ops {")])
EDITS["tr-continue"] = (["C18"], [(OM, "    for op in ops.into_iter().filter(|a|*a.len() > 0) {", "    for op in &ops {\n        if *op.len() == 0 { continue; }"),
    (OM, "                make_copy_ops(CopySrc::Dict, start, length, &mut out_ops);", "                make_copy_ops(CopySrc::Dict, *start, *length, &mut out_ops);"),
    (OM, "                make_copy_ops(CopySrc::Output, start, length, &mut out_ops);", "                make_copy_ops(CopySrc::Output, *start, *length, &mut out_ops);"),
    (OM, "                make_run_ops(byte, length, out_pos, &mut out_ops);", "                make_run_ops(*byte, *length, out_pos, &mut out_ops);")])
EDITS["tr-helper"] = (["C18"], [
    (OM, "        let span = two_end - one_p;\n        if span <= 9 + 4 || two_p - one_p <= 4 {", "        if not_worth_splitting(one_p, two_p, two_end) {"),
    (OM, "pub fn make_add_ops<'a>(", "fn not_worth_splitting(one_p: usize, two_p: usize, two_end: usize) -> bool {\n    (two_end - one_p) < 14 || (two_p - one_p) < 5\n}\n\npub fn make_add_ops<'a>(")])
EDITS["tr-index"] = (["C18"], [
    (OM, "                ops.get_mut(one).unwrap().set_len(0);\n                one = two;", "                ops[one].set_len(0);\n                one = two;"),
    (OM, "        ops.get_mut(one).unwrap().set_len(midpoint - one_p);\n        ops.get_mut(two).unwrap().set_o_pos(midpoint);", "        let (left, right) = ops.split_at_mut(two);\n        left[one].set_len(midpoint - one_p);\n        right[0].set_o_pos(midpoint);")])
EDITS["tr-gap"] = (["C18"], [
    (OM, "        if o_pos > out_pos {\n            make_add_ops(&trgt[out_pos..o_pos], &mut out_ops);\n            out_pos = o_pos;\n        }\n        assert!(o_pos == out_pos, \"Ops are not sorted by position\");\n        let len = *op.len();", "        assert!(o_pos >= out_pos, \"Ops are not sorted by position\");\n        if o_pos != out_pos {\n            make_add_ops(&trgt[out_pos..o_pos], &mut out_ops);\n        }\n        out_pos = o_pos;\n        let len = *op.len();")])
EDITS["tr-rest"] = (["C18"], [
    (OM, "    if trgt.len() > out_pos {\n        make_add_ops(&trgt[out_pos..], &mut out_ops);\n    }", "    let rest = &trgt[out_pos..];\n    if !rest.is_empty() {\n        make_add_ops(rest, &mut out_ops);\n    }")])
EDITS["enc-read"] = (["C18", "C04", "C14"], [
    (EL, "    let mut src_bytes = Vec::new();\n    if let Some(r) = dict {\n        r.read_to_end(&mut src_bytes)?;\n    }\n", "    let src_bytes = match dict {\n        Some(r) => {\n            let mut v = Vec::new();\n            r.read_to_end(&mut v)?;\n            v\n        }\n        None => Vec::new(),\n    };\n")])
EDITS["enc-sections"] = (["C18", "C04", "C15"], [
    (EL, "    for (seg_ops,mut header) in make_sections(&ops, segment_size){\n        header.format = format;", "    for (seg_ops, header) in make_sections(&ops, segment_size).into_iter() {\n        let header = header.set_format(format);")])
EDITS["enc-segment"] = (["C18"], [
    (EL, "    let segment_size = output_segment_size.min(MAX_WIN_SIZE).max(MAX_INST_SIZE);", "    let segment_size = output_segment_size.clamp(MAX_INST_SIZE, MAX_WIN_SIZE);")])

_SM, _TM = "smdiff-encoder/src/src_matcher.rs", "smdiff-encoder/src/trgt_matcher.rs"
_FWD = """    let src_remain = src.len() - src_end;
    let trgt_remain = trgt.len() - trgt_end;
    let post_match = (0..src_remain.min(trgt_remain)).take_while(|&i| {
        src[src_end + i] == trgt[trgt_end + i]
    }).count();
"""
_BWD = """    let pre_match = if min_offset > 1 {
        (1..min_offset).take_while(|&i| {
            src[src_start - i] == trgt[trgt_start - i]
        }).count()
    }else{0};
"""
_TF = """                let post_match = (0..src_remain.min(trgt_remain)).take_while(|&i| {
                    trgt[match_end + i] == trgt[trgt_end + i]
                }).count();
"""
EDITS["m-zip"] = (["C19"], [
    (_SM, _FWD, "    let post_match = src[src_end..].iter().zip(trgt[trgt_end..].iter()).take_while(|(a,b)| a == b).count();\n"),
    (_TM, _TF, "                let post_match = trgt[match_end..match_end + src_remain].iter().zip(&trgt[trgt_end..]).take_while(|(a,b)| a == b).count();\n                let _ = trgt_remain;\n"),
])
EDITS["m-while"] = (["C19"], [
    (_SM, _FWD, """    let limit = (src.len() - src_end).min(trgt.len() - trgt_end);
    let mut post_match = 0;
    while post_match < limit && src[src_end + post_match] == trgt[trgt_end + post_match] {
        post_match += 1;
    }
"""),
    (_SM, _BWD, """    let mut pre_match = 0;
    while pre_match + 1 < min_offset && src[src_start - pre_match - 1] == trgt[trgt_start - pre_match - 1] {
        pre_match += 1;
    }
"""),
    (_TM, _TF, """                let mut post_match = 0;
                while post_match < src_remain.min(trgt_remain) {
                    if trgt[match_end + post_match] != trgt[trgt_end + post_match] { break; }
                    post_match += 1;
                }
"""),
])
EDITS["m-helper"] = (["C19"], [
    (_SM, _FWD, "    let post_match = common_prefix_len(&src[src_end..], &trgt[trgt_end..]);\n"),
    (_SM, "///Returns the (pre_match, post_match) for", """pub(crate) fn common_prefix_len(a: &[u8], b: &[u8]) -> usize {
    let limit = a.len().min(b.len());
    (0..limit).take_while(|&i| a[i] == b[i]).count()
}

///Returns the (pre_match, post_match) for"""),
    (_TM, _TF, """                let limit = src_remain.min(trgt_remain);
                let post_match = crate::src_matcher::common_prefix_len(&trgt[match_end..match_end + limit], &trgt[trgt_end..trgt_end + limit]);
"""),
])
EDITS["m-slices"] = (["C19"], [
    (_SM, """    let initial_match = src[src_start..src_start + 9]
        .iter().zip(trgt[trgt_start..trgt_start + 9].iter())
        .all(|(a,b)| a == b);
    if !initial_match{
        return None;
    }""", """    if src[src_start..src_start + 9] != trgt[trgt_start..trgt_start + 9] {
        return None;
    }"""),
    (_TM, """                let initial_match = trgt[start_pos..start_pos + 4]
                .iter().zip(trgt[self.fwd_pos..self.fwd_pos + 4].iter())
                .all(|(a,b)| a == b);
""", "                let initial_match = trgt[start_pos..start_pos + 4] == trgt[self.fwd_pos..self.fwd_pos + 4];\n"),
])
EDITS["m-rev"] = (["C19"], [
    (_SM, _BWD, """    let pre_match = if min_offset > 1 {
        src[..src_start].iter().rev().zip(trgt[..trgt_start].iter().rev()).take(min_offset - 1).take_while(|(a,b)| a == b).count()
    }else{0};
"""),
])
EDITS["m-bestmatch"] = (["C19"], [
    (_TM, "        let mut best = None;\n        let mut best_len = 0;\n", "        let mut best: Option<(usize,usize)> = None;\n"),
    (_TM, """                if total_post_match > best_len{
                    best_len = total_post_match;
                    best = Some((start_pos,total_post_match));
                    if best_len >= self.compress_early_exit{
                        break;
                    }
                }""", """                if best.map_or(true, |(_,len)| total_post_match > len) {
                    best.replace((start_pos,total_post_match));
                    if total_post_match >= self.compress_early_exit{
                        return best;
                    }
                }"""),
])

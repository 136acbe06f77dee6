"""Edits of the web page: (text, replacement). All of them break C30."""
TRIALS = [
    ("const aesKey = document.getElementById('aeskey').value.trim();", "const aesKey = document.getElementById('aeskey').value.trim().toUpperCase();"),
    ("aesKey || undefined,", "undefined,"),
    ("const params = new URLSearchParams({ data: inputString, format });", "const params = new URLSearchParams({ data: inputString, format, key: aesKey });"),
    ("code.textContent = source;", "code.innerHTML = source;"),
    ("number.textContent = String(line);", "number.textContent = String(line - 1);"),
    ("const lineCount = Math.max(1, source.split('\\n').length);", "const lineCount = Math.max(1, source.trim().split('\\n').length);"),
    ("output.textContent = `[${code}] ${message}`;", "output.innerHTML = `[${code}] ${message}`;"),
    ("const code = error?.code || 'render.failed';", "const code = 'render.failed';"),
    ("detailSpan.textContent = seg.detail;", "detailSpan.innerHTML = seg.detail;"),
    ("tooltip.textContent = segmentTooltip(seg);", "tooltip.innerHTML = segmentTooltip(seg);"),
    ("extension = 'mmd';", "extension = 'txt';"),
    ("mimeType = 'text/csv';", "mimeType = 'text/plain';"),
    ("window._lastRawOutput = formattedResult;", "window._lastRawOutput = String(formattedResult).trim();"),
    ("parseInput(\"xml\");", "parseInput(\"json\");"),
    ("parseInput(urlFormat === 'table_format' ? 'table' : (urlFormat || 'mermaid'));", "parseInput(urlFormat || 'mermaid');\n                currentFormat = 'json';"),
    ("document.getElementById('inputstring').value = urlData;", "document.getElementById('inputstring').value = urlData.toUpperCase();"),
    ("for (let i = seg.start; i < seg.end && i < rawBytes.length; i++) {", "for (let i = seg.start; i <= seg.end && i < rawBytes.length; i++) {"),
    ("for (let row = 0; row * 16 < rawBytes.length; row++) {", "for (let row = 0; row * 16 < rawBytes.length - 1; row++) {"),
    ("displayBytes = parsed.bytes.map(b => Number(b) & 0xFF);", "displayBytes = parsed.bytes.map(b => Number(b) & 0x7F);"),
    (".replace(/0x/gi, '')", ".replace(/0x/g, '')"),
    ("if (activeSegIdx === segIdx) { clearHighlight(); }\n                else { highlightSegment(segIdx); }\n            });\n\n            // Build", "highlightSegment(segIdx);\n            });\n\n            // Build"),
    ("byteElements.forEach(el => { if (el) el.classList.remove('highlight'); });", ""),
    ("groupBody.classList.remove('hidden');", ""),
    (".slice(seg.start, seg.end)", ".slice(seg.start, seg.end - 1)"),
    (".map(b => b.toString(16).toUpperCase().padStart(2, '0'))\n                .join(' ');", ".map(b => b.toString(16).toUpperCase())\n                .join('');"),
    ("if (activeSegIdx === null) {\n                        clearHighlight();\n                    }", "clearHighlight();"),
    ("e.stopPropagation();", ""),
    ("tooltip.remove();", ""),
    ("const ch = (b >= 0x21 && b <= 0x7e)", "const ch = (b >= 0x21 && b < 0x7e)"),
    ("return Math.max(32, Math.min(120, Math.floor(availableWidth / characterWidth)));", "return Math.max(32, Math.floor(availableWidth / characterWidth));"),
    ("if (width === lastTableWidth) return;", "if (width >= lastTableWidth || width === 32) return;\n                if (width % 2) return;"),
    ("const params = new URLSearchParams({ data: inputString, format: currentFormat });", "const params = new URLSearchParams({ data: inputString, format: 'json' });"),
    ("const shareUrl = `${location.origin}${location.pathname}?${params}`;", "const shareUrl = `${location.origin}${location.pathname}?data=${inputString}&format=${currentFormat}`;"),
    ("if (seg.layer === 'record_field' && seg.group !== null && seg.group !== currentGroup) {", "if (seg.layer === 'record_field' && seg.group && seg.group !== currentGroup) {"),
    ("currentGroup = null;\n                    const layerLabel", "const layerLabel"),
    ("securityLevel: 'strict'", "securityLevel: 'loose'"),
    ("mermaidDiv.textContent = formattedResult;", "mermaidDiv.innerHTML = formattedResult;"),
    ("if (window._lastDownloadUrl) URL.revokeObjectURL(window._lastDownloadUrl);\n            const url = URL.createObjectURL(new Blob([content], { type: mimeType }));", "const url = URL.createObjectURL(new Blob([content], { type: mimeType }));\n            URL.revokeObjectURL(url);"),
    ("window._lastRawOutput = '';\n                    renderOutputError(outputContainer, error);", "renderOutputError(outputContainer, error);"),
    ("history.replaceState(null, '', `?${params}`);", "history.replaceState(null, '', `?data=${inputString}&format=${format}`);"),
    ("input type=\"password\" id=\"aeskey\"", "input type=\"text\" id=\"aeskey\""),
    ("if (aesKey && !/^[0-9A-Fa-f]{32}$/.test(aesKey)) {", "if (aesKey && !/^[0-9A-F]{32}$/.test(aesKey)) {"),
    ("offsetSpan.textContent = (row * 16).toString(16)", "offsetSpan.textContent = (row * 16).toString(10)"),
]
